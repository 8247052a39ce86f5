----------------------------- MODULE ServeTrace -----------------------------
(***************************************************************************)
(* Checks executions of programs that talk to a server packet by packet,   *)
(* cf. RpcTrace.  Every connection is served by itself: its requests are   *)
(* executed once and answered there, under their identifiers, unless they  *)
(* repeat one that's being executed; it's done with when it ends or when   *)
(* what comes isn't understood, which makes room for others.               *)
(***************************************************************************)
EXTENDS Rpc, Json, IOUtils, TLC, FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES e, i,
          q,            \* Requests.
          k,            \* Connections.
          s,            \* The server: on, stopping, off or gone.
          u,            \* [now, flags, ended, thread].
          pend          \* Operations going on, by thread.
vars == <<e, i, q, k, s, u, pend>>

Events == Trace[e].ev
Ev == Events[i]
Config == Trace[e].ev[1]
AtEnd == i > Len(Events)
NoOp == [c |-> 0]

Init ==
    /\ e \in 1..Len(Trace)
    /\ i = 2
    /\ q = [n \in {} |-> 0]
    /\ k = [x \in {} |-> 0]
    /\ s = "none"
    /\ u = [now |-> 0, flags |-> {}, ended |-> {}, thread |-> [t \in {0} |-> -1]]
    /\ pend = [t \in {0} |-> NoOp]

With(f, x, v) == [j \in DOMAIN f \union {x} |-> IF j = x THEN v ELSE f[j]]
Op(t) == Events[pend[t].c]
Field(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Down == s \in {"stopping", "off", "gone"}

NewConnection ==
    [before |-> {x \in DOMAIN k : k[x].opened},
     opened |-> FALSE,
     may |-> FALSE,             \* It may have ended from this side,
     over |-> FALSE,            \* and certainly has.
     half |-> FALSE,            \* There's half a packet under way.
     seen |-> FALSE]            \* The server has it.

\* Same identifier, same connection, earlier.
Earlier(n) == {m \in DOMAIN q : q[m].k = q[n].k /\ q[m].id = q[n].id /\ q[m].ord < q[n].ord}
Same(x, id) == {m \in DOMAIN q : q[m].k = x /\ q[m].id = id}
Requests(x) == {n \in DOMAIN q : q[n].k = x}

NewRequest(o) ==
    LET c == NewCall(0, o.name, o.m, <<>>, o.tag, o.at, -1, o.dl,
                     [x \in DOMAIN Config.names |-> {Config.names[x]}], i)
    IN c @@ [k |-> o.k, id |-> o.id, ord |-> i,
             answered |-> FALSE,
             may |-> \E m \in Same(o.k, o.id) : ~q[m].answered,   \* It may be dropped.
             late |-> k[o.k].may]                                 \* Nobody reads it.
\* There's nothing to execute.
Refused(c) == c.m # "work" \/ c.can = {0}
Refusal(c, r, msg) == IF c.m = "broken" THEN r # "ok" ELSE EndsNotFound(c, r, msg)

Busy == Cardinality(Executing(q)) = Config.workers
\* Half packets keep workers busy, too.
MayBusy == Cardinality(Executing(q)) + Cardinality({x \in DOMAIN k : k[x].half})
             >= Config.workers
\* Others may have taken the places there are.
Crowded(x) ==
    /\ Config.limit > 0
    /\ Cardinality({y \in DOMAIN k \ {x} : ~k[y].over /\ x \notin k[y].before}) >= Config.limit
MayEnter(x) ==
    Config.limit > 0 =>
        Cardinality({y \in k[x].before : ~k[y].may}) < Config.limit

Call ==
    /\ Ev.e = "call"
    /\ pend' = With(pend, Ev.th, [c |-> i, start |-> Ev.now])
    /\ CASE Ev.op = "open" ->
              k' = With(k, Ev.k, NewConnection) /\ UNCHANGED <<q, s, u>>
         [] Ev.op = "send" ->
              /\ Ev.n \notin DOMAIN q
              /\ q' = With(q, Ev.n, NewRequest(Ev))
              /\ UNCHANGED <<k, s, u>>
         [] Ev.op = "half" -> k' = [k EXCEPT ![Ev.k].half = TRUE] /\ UNCHANGED <<q, s, u>>
         [] Ev.op = "kill" ->
              /\ q' = [n \in DOMAIN q |->
                         IF n \in Same(Ev.k, Ev.id)
                         THEN [q[n] EXCEPT !.stopping = TRUE] ELSE q[n]]
              /\ UNCHANGED <<k, s, u>>
         [] Ev.op \in {"bad", "shut", "drop"} ->
              k' = [k EXCEPT ![Ev.k].may = TRUE] /\ UNCHANGED <<q, s, u>>
         [] Ev.op = "run" -> s' = "on" /\ UNCHANGED <<q, k, u>>
         [] Ev.op \in {"stop", "delete"} -> s' = "stopping" /\ UNCHANGED <<q, k, u>>
         [] Ev.op = "set" -> u' = [u EXCEPT !.flags = @ \union {Ev.o}] /\ UNCHANGED <<q, k, s>>
         [] OTHER -> UNCHANGED <<q, k, s, u>>
    /\ i' = i + 1
    /\ UNCHANGED e

Method(t) == {n \in Executing(q) : q[n].th = t}
Interrupts(t, r) ==
    \E n \in Method(t) :
       \/ r = "cancelled" /\ q[n].stopping
       \/ r = "deadline_exceeded" /\ Ev.now >= q[n].until - 1

Written(o) == o.res = "ok" \/ (o.res = "io_error" /\ (k[o.k].may \/ Down))

\* What was received is what was missing.
Answers(n, o) ==
    /\ q[n].k = o.k /\ q[n].id = o.id /\ ~q[n].answered
    /\ o.type = 1
    /\ IF Refused(q[n]) THEN Refusal(q[n], o.r, Field(o, "msg", ""))
       ELSE EndsAsExecuted(q[n], o.r, Field(o, "v", 0), Field(o, "msg", ""))
    /\ Field(o, "more", 0) = 0

Ret ==
    /\ Ev.e = "ret"
    /\ LET t == Ev.th
           o == Op(t)
       IN CASE o.op = "open" ->
                 /\ o.res = "ok"
                 /\ k' = [k EXCEPT ![o.k].opened = TRUE]
                 /\ UNCHANGED <<q, s, u>>
            [] o.op = "send" ->
                 /\ Written(o)
                 /\ q' = [q EXCEPT ![o.n].sent = o.res = "ok"]
                 /\ k' = [k EXCEPT ![o.k].half = FALSE]
                 /\ UNCHANGED <<s, u>>
            [] o.op = "half" -> Written(o) /\ UNCHANGED <<q, k, s, u>>
            [] o.op = "kill" ->
                 /\ Written(o)
                 /\ q' = [n \in DOMAIN q |->
                            IF n \in Same(o.k, o.id) /\ ~k[o.k].may
                            THEN [q[n] EXCEPT !.stopped = TRUE] ELSE q[n]]
                 /\ UNCHANGED <<k, s, u>>
            [] o.op \in {"bad", "shut", "drop"} ->
                 /\ IF o.op = "bad" THEN Written(o) ELSE o.res = "ok"
                 /\ k' = [k EXCEPT ![o.k].over = TRUE, ![o.k].half = FALSE]
                 /\ UNCHANGED <<q, s, u>>
            [] o.op = "recv" ->
                 /\ CASE o.res = "ok" ->
                           IF o.got = 0
                           THEN Ev.now >= pend[t].start + o.val /\ UNCHANGED <<q, k>>
                           ELSE \E n \in DOMAIN q :
                                  /\ Answers(n, o)
                                  /\ q' = [q EXCEPT ![n].answered = TRUE]
                                  /\ k' = [k EXCEPT ![o.k].seen = TRUE]
                      [] o.res \in {"eof", "io_error"} ->
                           (k[o.k].may \/ Down) /\ UNCHANGED <<q, k>>
                 /\ UNCHANGED <<s, u>>
            [] o.op = "stop" -> o.res = "ok" /\ s' = "off" /\ UNCHANGED <<q, k, u>>
            [] o.op = "delete" ->
                 /\ o.res = "ok"
                 /\ Executing(q) = {}
                 /\ s' = "gone"
                 /\ UNCHANGED <<q, k, u>>
            [] o.op = "wait" ->
                 /\ IF o.res = "ok" THEN o.o \in u.flags ELSE Interrupts(t, o.res)
                 /\ UNCHANGED <<q, k, s, u>>
            [] o.op = "sleep" ->
                 /\ IF o.res = "ok" THEN Ev.now >= pend[t].start + o.val
                    ELSE Interrupts(t, o.res)
                 /\ UNCHANGED <<q, k, s, u>>
            [] o.op = "join" -> o.res = "ok" /\ o.t \in u.ended /\ UNCHANGED <<q, k, s, u>>
            [] o.op \in {"create", "run", "spawn", "set"} ->
                 o.res = "ok" /\ UNCHANGED <<q, k, s, u>>
    /\ pend' = [pend EXCEPT ![Ev.th] = NoOp]
    /\ i' = i + 1
    /\ UNCHANGED e

Exec ==
    /\ Ev.e = "exec"
    /\ Ev.n \in DOMAIN q
    /\ ~Busy
    /\ s \notin {"none", "gone"}
    /\ LET c == q[Ev.n]
       IN /\ CanExecute(c, Ev.o + 1, Ev.m, Ev.tag, Ev.left, Ev.now, Config.to)
          /\ ~c.late
          /\ MayEnter(c.k)
          \* Those with its identifier are done with.
          /\ \A m \in Earlier(Ev.n) :
                \/ Refused(q[m])
                \/ q[m].st \in {"done", "void"}
                \/ q[m].st = "new" /\ q[m].may
          /\ q' = [m \in DOMAIN q |->
                     IF m = Ev.n THEN Execute(q[m], Ev.o + 1, Ev.th, Ev.left, Ev.now)
                     ELSE IF m \in Earlier(Ev.n) /\ q[m].st = "new" /\ ~Refused(q[m])
                     THEN [q[m] EXCEPT !.st = "void"] ELSE q[m]]
          /\ k' = [k EXCEPT ![c.k].seen = TRUE]
    /\ pend' = With(pend, Ev.th, NoOp)
    /\ i' = i + 1
    /\ UNCHANGED <<e, s, u>>
Done ==
    /\ Ev.e = "done"
    /\ q[Ev.n].st = "exec"
    /\ q[Ev.n].th = Ev.th
    /\ q' = [q EXCEPT ![Ev.n] = Finish(@, Ev.r, Field(Ev, "v", 0), Field(Ev, "msg", ""))]
    /\ i' = i + 1
    /\ UNCHANGED <<e, k, s, u, pend>>

Begin ==
    /\ Ev.e = "begin"
    /\ u' = [u EXCEPT !.thread = With(@, Ev.th, Ev.t)]
    /\ pend' = With(pend, Ev.th, NoOp)
    /\ i' = i + 1
    /\ UNCHANGED <<e, q, k, s>>
End ==
    /\ Ev.e = "end"
    /\ u' = [u EXCEPT !.ended = @ \union {u.thread[Ev.th]}]
    /\ i' = i + 1
    /\ UNCHANGED <<e, q, k, s, pend>>

\* Nothing can be done before time passes: then only those wait who have to.
Open(n) ==                       \* There may be no answer yet, or ever.
    LET c == q[n]
    IN \/ c.st \in {"exec", "void"}
       \/ c.st = "new" /\ (c.may \/ c.late \/ ~c.sent)
NothingComes(x) ==
    \/ MayBusy
    \/ s = "on" /\ Crowded(x)
    \/ s # "on" /\ ~(s = "off" /\ k[x].seen)
    \/ s = "on" /\ ~k[x].over /\ \A n \in Requests(x) : q[n].answered \/ Open(n)
Told(n) == q[n].stopped /\ ~MayBusy /\ s = "on" /\ ~k[q[n].k].may
MayWait(t, now, until) ==
    \A n \in Method(t) : /\ ~Told(n)
                         /\ now <= q[n].until + 1
                         /\ until <= q[n].until + 1
Waits(t, now, until) ==
    LET p == pend[t]
        o == Events[p.c]
    IN CASE p.c = 0 -> TRUE
         [] OTHER ->
              CASE o.op = "recv" -> /\ now <= p.start + o.val
                                    /\ until <= p.start + o.val + 1
                                    /\ NothingComes(o.k)
                [] o.op = "sleep" -> /\ now <= p.start + o.val
                                     /\ until <= p.start + o.val + 1
                                     /\ MayWait(t, now, until)
                [] o.op = "wait" -> o.o \notin u.flags /\ MayWait(t, now, until)
                [] o.op = "join" -> o.t \notin u.ended
                [] o.op = "delete" -> Executing(q) # {}
                [] OTHER -> FALSE
\* What can be started has been.
AllStarted ==
    s = "on" => \A n \in DOMAIN q :
        (q[n].st = "new" /\ q[n].sent /\ ~q[n].may /\ ~q[n].late /\ ~Refused(q[n])) =>
            MayBusy \/ Crowded(q[n].k) \/ k[q[n].k].may
Tick ==
    /\ Ev.e = "tick"
    /\ \A t \in DOMAIN pend : Waits(t, u.now, Ev.now)
    /\ AllStarted
    /\ u' = [u EXCEPT !.now = Ev.now]
    /\ i' = i + 1
    /\ UNCHANGED <<e, q, k, s, pend>>

Explained ==
    /\ AtEnd
    /\ CASE Trace[e].end = "done" ->
              /\ \A t \in DOMAIN pend : pend[t] = NoOp
              /\ Executing(q) = {}
         [] Trace[e].end = "stuck" -> \A t \in DOMAIN pend : Waits(t, u.now, 0)
         [] OTHER -> FALSE
    /\ PrintT(<<"DONE", e>>)
    /\ UNCHANGED vars

Next ==
    \/ Explained
    \/ /\ ~AtEnd
       /\ \/ Call \/ Ret \/ Exec \/ Done \/ Begin \/ End \/ Tick
Spec == Init /\ [][Next]_vars
=============================================================================
