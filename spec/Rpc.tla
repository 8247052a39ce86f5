-------------------------------- MODULE Rpc --------------------------------
(***************************************************************************)
(* Calls of methods of remote objects.  A call is executed at most once,   *)
(* by an object that has the name, with the arguments, data and deadline   *)
(* of the caller, and ends with what its execution ends with; it may end   *)
(* otherwise when it's cancelled, its time is over, or its link breaks.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == 1000000000
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a < b THEN b ELSE a

\* Names with what they may stand for: objects, or 0 for none.  There's more
\* than one possibility while that's being changed.
NewNames == [n \in {"a", "b", "none"} |-> {0}]
Changing(names, n, o) == [names EXCEPT ![n] = @ \union {o}]
Changed(names, n, o) == [names EXCEPT ![n] = {o}]
NamesOf(names, o) == {n \in DOMAIN names : o \in names[n]}

\* Methods objects have.
Methods == {"work", "act", "echo", "note"}

NewCall(cl, name, m, a, tag, now, to, dl, names, at) ==
    [cl |-> cl, name |-> name, m |-> m, a |-> a, tag |-> tag,
     start |-> now,
     deadline |-> Least(IF to < 0 THEN None ELSE now + to, IF dl < 0 THEN None ELSE dl),
     can |-> names[name],      \* What the name may have stood for.
     at |-> at,                \* When link trouble starts to be its problem.
     sent |-> FALSE,           \* It's certainly on its way.
     doomed |-> FALSE,         \* The link it used is gone.
     stopping |-> FALSE,       \* It may be told to stop,
     stopped |-> FALSE,        \* and certainly was.
     over |-> FALSE,           \* The caller knows how it ended.
     given |-> FALSE,          \* It was certainly not ended by an execution.
     st |-> "new", o |-> 0, th |-> -1, until |-> None,
     r |-> "", v |-> <<>>, msg |-> ""]

\* Time is measured in whole units, and passes while requests travel.
Slack == 2
CanExecute(c, o, m, tag, left, now, limit) ==
    /\ c.st = "new"
    /\ ~c.given
    /\ o \in c.can /\ o # 0
    /\ m = c.m
    /\ tag = c.tag
    /\ LET most == Least(IF c.deadline = None THEN None ELSE c.deadline - c.start,
                         IF limit < 0 THEN None ELSE limit)
       IN IF most = None THEN left = -1
          ELSE /\ left <= most
               /\ left >= most - (now - c.start) - Slack
Execute(c, o, th, left, now) ==
    [c EXCEPT !.st = "exec", !.o = o, !.th = th, !.sent = TRUE,
              !.until = IF left = -1 THEN None ELSE now + left]
Finish(c, r, v, msg) ==
    [c EXCEPT !.st = "done", !.r = r, !.v = v, !.msg = msg]

Executing(calls) == {n \in DOMAIN calls : calls[n].st = "exec"}
Running(calls, o) == {n \in Executing(calls) : calls[n].o = o}

\* How errors look to the caller.
Transported(r) == IF r = "" THEN "unknown_error" ELSE r

\* The ways in which a call may end.
EndsAsExecuted(c, r, v, msg) ==
    /\ c.st = "done"
    /\ r = Transported(c.r)
    /\ IF r = "ok" THEN v = c.v ELSE msg = c.msg
EndsNotFound(c, r, msg) ==
    /\ c.st = "new"
    /\ r = "not_found"
    /\ \/ 0 \in c.can /\ msg = "Object not found"
       \/ c.m \notin Methods /\ c.can # {0} /\ msg = "Method not found in object"
EndsLate(c, r, now) == r = "deadline_exceeded" /\ now >= c.deadline - 1
Doom(c) == [c EXCEPT !.doomed = @ \/ ~c.over]
=============================================================================
