----------------------------- MODULE ImposeTrace -----------------------------
(***************************************************************************)
(* Checks executions of programs whose client talks to what isn't a server *)
(* and answers, packet by packet, what it likes: each call ends with what  *)
(* the first answer to it says, whatever else comes and in any order;      *)
(* when the link ends or what comes isn't understood, with an error.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES e, i,
          q,            \* Calls.
          k,            \* Links.
          u,            \* [now, ended, thread, closed].
          pend          \* Operations going on, by thread.
vars == <<e, i, q, k, u, pend>>

Events == Trace[e].ev
Ev == Events[i]
AtEnd == i > Len(Events)
NoOp == [c |-> 0]
None == 2000000000
Slack == 2

Init ==
    /\ e \in 1..Len(Trace)
    /\ i = 2
    /\ q = [n \in {} |-> 0]
    /\ k = [x \in {} |-> 0]
    /\ u = [now |-> 0, ended |-> {}, thread |-> [t \in {0} |-> -1], taken |-> 0,
            closed |-> FALSE, killed |-> {}]
    /\ pend = [t \in {0} |-> NoOp]

With(f, x, v) == [j \in DOMAIN f \union {x} |-> IF j = x THEN v ELSE f[j]]
Op(t) == Events[pend[t].c]
Field(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Least(a, b) == IF a < b THEN a ELSE b

Latest == Cardinality(DOMAIN k)
NewLink == [may |-> FALSE,              \* It may have ended,
            over |-> FALSE,             \* certainly has,
            settled |-> FALSE]          \* and the client knows.

NewCall(o) ==
    [name |-> o.name, tag |-> o.tag,
     start |-> Ev.now,
     deadline |-> Least(IF o.to < 0 THEN None ELSE Ev.now + o.to,
                        IF o.dl < 0 THEN None ELSE o.dl),
     old |-> {x \in DOMAIN k : k[x].settled},   \* It can't be sent over these.
     broken |-> u.closed \/ \E x \in DOMAIN k : k[x].may /\ ~k[x].settled,
     lost |-> FALSE,                    \* It certainly ended with its link.
     abandoning |-> FALSE, abandoned |-> FALSE,
     k |-> 0, id |-> -1,                \* Where it was read, and as what.
     ans |-> 0,                         \* The first answer,
     written |-> FALSE,                 \* which is on its way,
     told |-> FALSE,                    \* and has certainly arrived.
     over |-> FALSE]
Opened == {n \in DOMAIN q : ~q[n].over}
ReadAs(x, id) == {n \in DOMAIN q : q[n].k = x /\ q[n].id = id}

\* A caller whose time is up while it sends leaves the link behind.
Breaks == \E n \in DOMAIN q : q[n].deadline < None /\ u.now >= q[n].deadline - 1
\* For all calls there are.
Trouble == [n \in DOMAIN q |-> IF q[n].over THEN q[n] ELSE [q[n] EXCEPT !.broken = TRUE]]

Call ==
    /\ Ev.e = "call"
    /\ pend' = With(pend, Ev.th, [c |-> i, start |-> Ev.now])
    /\ CASE Ev.op \in {"rpc", "start"} ->
              /\ Ev.n \notin DOMAIN q
              /\ q' = With(q, Ev.n, NewCall(Ev))
              /\ UNCHANGED <<k, u>>
         [] Ev.op = "abandon" ->
              /\ q' = [q EXCEPT ![Ev.n].abandoning = TRUE]
              /\ UNCHANGED <<k, u>>
         [] Ev.op = "answer" ->
              /\ q' = [n \in DOMAIN q |->
                         IF n \in ReadAs(Ev.k, Ev.id) /\ q[n].ans = 0 /\ ~q[n].abandoned
                            /\ ~k[Ev.k].may
                         THEN [q[n] EXCEPT !.ans = i] ELSE q[n]]
              /\ UNCHANGED <<k, u>>
         [] Ev.op \in {"bad", "shut", "drop"} ->
              /\ k' = [k EXCEPT ![Ev.k].may = TRUE]
              /\ q' = Trouble
              /\ UNCHANGED u
         [] Ev.op = "closed" ->
              /\ u' = [u EXCEPT !.closed = TRUE]
              /\ k' = [x \in DOMAIN k |-> [k[x] EXCEPT !.may = TRUE]]
              /\ q' = Trouble
         [] OTHER -> UNCHANGED <<q, k, u>>
    /\ i' = i + 1
    /\ UNCHANGED e

\* How a call may end for its caller.
Ends(n, o) ==
    LET c == q[n]
        a == Events[c.ans]
    IN \/ /\ c.ans # 0
          /\ CASE a.r = "short" -> o.res # "ok"
               [] a.r = "ok" -> o.res = "ok" /\ o.v = a.v
               [] OTHER -> o.res = a.r /\ o.msg = a.msg
       \/ o.res = "deadline_exceeded" /\ Ev.now >= c.deadline - 1
       \/ o.res = "cancelled" /\ c.abandoning
       \/ o.res \notin {"ok", "deadline_exceeded", "cancelled"} /\ (c.broken \/ Breaks)
\* What's known to have come is what it ends with.
Told(n, o) ==
    LET c == q[n]
        a == Events[c.ans]
    IN c.told =>
         CASE a.r = "short" -> o.res # "ok"
           [] a.r = "ok" -> o.res = "ok" /\ o.v = a.v
           [] OTHER -> o.res = a.r /\ o.msg = a.msg

Written(o) == o.res = "ok" \/ (o.res = "io_error" /\ (k[o.k].may \/ Breaks))
Ret ==
    /\ Ev.e = "ret"
    /\ LET t == Ev.th
           o == Op(t)
       IN CASE o.op = "rpc" ->
                 /\ Ends(o.n, o)
                 /\ q' = [q EXCEPT ![o.n].over = TRUE]
                 /\ UNCHANGED <<k, u>>
            [] o.op = "start" ->
                 /\ \/ o.res = "ok"
                    \/ o.res = "deadline_exceeded" /\ Ev.now >= q[o.n].deadline - 1
                    \/ o.res \notin {"cancelled", "deadline_exceeded"}
                       /\ (q[o.n].broken \/ Breaks)
                 /\ q' = [q EXCEPT ![o.n].over = o.res # "ok"]
                 /\ UNCHANGED <<k, u>>
            [] o.op = "get" ->
                 /\ Ends(o.n, o)
                 /\ Told(o.n, o)
                 /\ q' = [q EXCEPT ![o.n].over = TRUE]
                 /\ UNCHANGED <<k, u>>
            [] o.op = "abandon" ->
                 /\ o.res = "ok"
                 /\ q' = [q EXCEPT ![o.n].abandoned = TRUE]
                 /\ UNCHANGED <<k, u>>
            [] o.op = "take" ->
                 /\ o.res = "ok"
                 /\ IF o.k = 0 THEN Ev.now >= pend[t].start + o.val /\ UNCHANGED u
                    ELSE /\ o.k = u.taken + 1
                         /\ o.k \in DOMAIN k
                         /\ u' = [u EXCEPT !.taken = o.k]
                 /\ UNCHANGED <<q, k>>
            [] o.op = "answer" ->
                 /\ Written(o)
                 /\ q' = [n \in DOMAIN q |->
                            IF q[n].ans = pend[t].c /\ o.res = "ok"
                            THEN [q[n] EXCEPT !.written = TRUE] ELSE q[n]]
                 /\ UNCHANGED <<k, u>>
            [] o.op = "half" -> Written(o) /\ UNCHANGED <<q, k, u>>
            [] o.op \in {"bad", "shut", "drop"} ->
                 /\ IF o.op = "bad" THEN Written(o) ELSE o.res = "ok"
                 /\ k' = [k EXCEPT ![o.k].over = TRUE]
                 /\ UNCHANGED <<q, u>>
            [] o.op = "closed" ->
                 /\ o.res = "ok"
                 /\ k' = [x \in DOMAIN k |-> [k[x] EXCEPT !.over = TRUE]]
                 /\ UNCHANGED <<q, u>>
            [] o.op = "recv" ->
                 CASE o.res # "ok" ->
                        /\ o.res \in {"eof", "io_error"}
                        /\ k[o.k].may \/ Breaks
                        /\ q' = Trouble
                        /\ k' = [k EXCEPT ![o.k].may = TRUE]
                        /\ UNCHANGED u
                   [] o.got = 0 ->
                        Ev.now >= pend[t].start + o.val /\ UNCHANGED <<q, k, u>>
                   [] o.type = 0 ->
                        /\ o.n \in DOMAIN q
                        /\ LET c == q[o.n]
                           IN /\ c.k = 0                \* Sent once,
                              /\ o.k \notin c.old       \* not over what's gone,
                              /\ \A m \in DOMAIN q : q[m].id # o.id
                              /\ o.name = c.name /\ o.m = "work" /\ o.tag = c.tag
                              /\ o.more = 0
                              /\ IF c.deadline = None THEN o.left = -1
                                 ELSE /\ o.left >= 0
                                      /\ o.left <= c.deadline - c.start + Slack
                                      /\ Ev.now + o.left >= c.deadline - Slack
                        /\ q' = [q EXCEPT ![o.n].k = o.k, ![o.n].id = o.id]
                        /\ UNCHANGED <<k, u>>
                   [] o.type = 2 ->
                        \* Somebody wants it to end.
                        /\ \E n \in DOMAIN q :
                             /\ q[n].id \in {-1, o.id}
                             /\ \/ q[n].abandoning
                                \/ q[n].ans # 0 /\ Events[q[n].ans].r = "cancelled"
                        /\ u' = [u EXCEPT !.killed = @ \union {o.id}]
                        /\ UNCHANGED <<q, k>>
                   [] OTHER -> FALSE
            [] o.op = "sleep" ->
                 o.res = "ok" /\ Ev.now >= pend[t].start + o.val /\ UNCHANGED <<q, k, u>>
            [] o.op = "join" -> o.res = "ok" /\ o.t \in u.ended /\ UNCHANGED <<q, k, u>>
            [] o.op \in {"client", "spawn"} -> o.res = "ok" /\ UNCHANGED <<q, k, u>>
    /\ pend' = [pend EXCEPT ![Ev.th] = NoOp]
    /\ i' = i + 1
    /\ UNCHANGED e

Link ==
    /\ Ev.e = "link"
    \* There's a reason for another one.
    /\ IF Latest = 0 THEN TRUE ELSE k[Latest].may \/ Breaks
    /\ k' = With(k, Latest + 1, NewLink)
    /\ i' = i + 1
    /\ UNCHANGED <<e, q, u, pend>>
NoLink ==
    /\ Ev.e = "nolink"
    /\ u.closed
    /\ i' = i + 1
    /\ UNCHANGED <<e, q, k, u, pend>>

Begin ==
    /\ Ev.e = "begin"
    /\ u' = [u EXCEPT !.thread = With(@, Ev.th, Ev.t)]
    /\ pend' = With(pend, Ev.th, NoOp)
    /\ i' = i + 1
    /\ UNCHANGED <<e, q, k>>
End ==
    /\ Ev.e = "end"
    /\ u' = [u EXCEPT !.ended = @ \union {u.thread[Ev.th]}]
    /\ i' = i + 1
    /\ UNCHANGED <<e, q, k, pend>>

\* Nothing can be done before time passes: then only those wait who have to.
MayWait(n, now, until) ==
    LET c == q[n]
    IN /\ ~c.abandoned
       /\ ~c.written
       /\ now <= c.deadline + 1 /\ until <= c.deadline + 2
       \* There's still something to wait for.
       /\ IF c.k # 0 THEN ~k[c.k].over
          ELSE Latest # 0 /\ ~k[Latest].over
Waiting == {n \in DOMAIN q : \E t \in DOMAIN pend :
              pend[t].c # 0 /\ Op(t).op \in {"rpc", "get"} /\ Op(t).n = n}
NothingComes(x) ==
    (x = Latest /\ ~k[x].may /\ ~Breaks) =>
        /\ \A n \in Waiting : q[n].k # 0
        \* They're told of what was given up.
        /\ \A n \in DOMAIN q : (q[n].abandoned /\ q[n].k = x) => q[n].id \in u.killed
Waits(t, now, until) ==
    LET p == pend[t]
        o == Events[p.c]
    IN CASE p.c = 0 -> TRUE
         [] OTHER ->
              CASE o.op \in {"rpc", "get"} -> MayWait(o.n, now, until)
                \* Nobody takes what's sent.
                [] o.op = "start" /\ Trace[e].ev[1].small = 1 -> MayWait(o.n, now, until)
                [] o.op = "recv" -> /\ now <= p.start + o.val
                                    /\ until <= p.start + o.val + 1
                                    /\ NothingComes(o.k)
                                    /\ ~k[o.k].may
                [] o.op = "take" -> /\ now <= p.start + o.val
                                    /\ until <= p.start + o.val + 1
                                    /\ Latest = u.taken
                [] o.op = "sleep" -> /\ now <= p.start + o.val
                                     /\ until <= p.start + o.val + 1
                [] o.op = "join" -> o.t \notin u.ended
                [] OTHER -> FALSE
Tick ==
    /\ Ev.e = "tick"
    /\ \A t \in DOMAIN pend : Waits(t, u.now, Ev.now)
    /\ u' = [u EXCEPT !.now = Ev.now]
    /\ k' = [x \in DOMAIN k |-> [k[x] EXCEPT !.settled = @ \/ k[x].over]]
    /\ q' = [n \in DOMAIN q |->
               IF q[n].written /\ ~q[n].abandoning /\ ~q[n].broken /\ ~Breaks
               THEN [q[n] EXCEPT !.told = TRUE] ELSE q[n]]
    /\ i' = i + 1
    /\ UNCHANGED <<e, pend>>

Explained ==
    /\ AtEnd
    /\ CASE Trace[e].end = "done" -> \A t \in DOMAIN pend : pend[t] = NoOp
         [] OTHER -> FALSE
    /\ PrintT(<<"DONE", e>>)
    /\ UNCHANGED vars

Next ==
    \/ Explained
    \/ /\ ~AtEnd
       /\ \/ Call \/ Ret \/ Link \/ NoLink \/ Begin \/ End \/ Tick
Spec == Init /\ [][Next]_vars
=============================================================================
