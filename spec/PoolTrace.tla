----------------------------- MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Checks executions of programs that use a thread pool, cf. AsyncTrace.   *)
(***************************************************************************)
EXTENDS Pool, Json, IOUtils, TLC, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES e, i,
          p,            \* The pool.
          u,            \* The rest: [now, flags, cancelled callers, ended].
          pend          \* Operations going on, by thread.
vars == <<e, i, p, u, pend>>

Events == Trace[e].ev
Ev == Events[i]
AtEnd == i > Len(Events)
None == 1000000
NoOp == [c |-> 0]
Config == Trace[e].ev[1]

Init ==
    /\ e \in 1..Len(Trace)
    /\ i = 2
    /\ p = IF Len(Trace[e].ev) = 0 THEN 0 ELSE NewPool(Config.workers, Config.size)
    /\ u = IF Len(Trace[e].ev) = 0 THEN 0
           ELSE [now |-> 0, flags |-> {}, cancelled |-> {}, ended |-> {},
                 \* Who the threads are: callers or, for lack of a name, workers.
                 caller |-> [t \in {0} |-> -1]]
    /\ pend = [t \in {0} |-> NoOp]

Pending(t) == IF t \in DOMAIN pend THEN pend[t] ELSE NoOp
Set(t, x) == [k \in DOMAIN pend \union {t} |-> IF k = t THEN x ELSE pend[k]]
Cancelled(t) == IF t \in DOMAIN u.caller THEN u.caller[t] \in u.cancelled
                ELSE p.destroying

Call ==
    /\ Ev.e = "call"
    /\ pend' = Set(Ev.th, [c |-> i, done |-> FALSE, start |-> u.now])
    /\ i' = i + 1
    /\ UNCHANGED <<e, p, u>>

\* What an operation returned is known.
Known(o) == "res" \in DOMAIN o
Returns(o, r) == IF Known(o) THEN o.res = r ELSE FALSE
Effect(t) ==
    LET x == pend[t]
        o == Events[x.c]
        ok == IF Known(o) THEN o.res = "ok" ELSE TRUE
    IN /\ x.c # 0
       /\ ~x.done
       /\ pend' = [pend EXCEPT ![t].done = TRUE]
       /\ CASE o.op = "run" -> ok /\ CanRun(p) /\ p' = Run(p, o.task) /\ u' = u
            [] o.op = "set" -> u' = [u EXCEPT !.flags = @ \union {o.o}] /\ p' = p
            [] o.op = "cancel" ->
                 u' = [u EXCEPT !.cancelled = @ \union {o.target}] /\ p' = p
            [] o.op = "destroy" -> p' = Destroy(p) /\ u' = u
            [] OTHER -> FALSE
       /\ UNCHANGED <<e, i>>

Ret ==
    /\ Ev.e = "ret"
    /\ LET x == pend[Ev.th]
           o == Events[x.c]
       IN CASE o.op = "run" -> IF o.res = "ok" THEN x.done /\ p' = p
                               ELSE o.res = "cancelled" /\ Cancelled(Ev.th) /\ p' = p
            [] o.op \in {"set", "cancel"} -> x.done /\ o.res = "ok" /\ p' = p
            [] o.op = "wait" -> IF o.res = "ok" THEN o.o \in u.flags /\ p' = p
                                ELSE o.res = "cancelled" /\ Cancelled(Ev.th) /\ p' = p
            [] o.op = "sleep" -> IF o.res = "ok" THEN u.now >= x.start + o.val /\ p' = p
                                 ELSE o.res = "cancelled" /\ Cancelled(Ev.th) /\ p' = p
            [] o.op = "join" -> o.caller \in u.ended /\ o.res = "ok" /\ p' = p
            [] o.op = "destroy" -> x.done /\ CanEnd(p) /\ o.res = "ok" /\ p' = p
            [] o.op = "spawn" -> o.res = "ok" /\ p' = p
    /\ pend' = [pend EXCEPT ![Ev.th] = NoOp]
    /\ i' = i + 1
    /\ UNCHANGED <<e, u>>

Begin ==
    /\ Ev.e = "begin"
    /\ u' = [u EXCEPT !.caller = [t \in DOMAIN @ \union {Ev.th} |->
                IF t = Ev.th THEN Ev.caller ELSE @[t]]]
    /\ pend' = Set(Ev.th, NoOp)
    /\ i' = i + 1
    /\ UNCHANGED <<e, p>>
End ==
    /\ Ev.e = "end"
    /\ u' = [u EXCEPT !.ended = @ \union {u.caller[Ev.th]}]
    /\ i' = i + 1
    /\ UNCHANGED <<e, p, pend>>

Task ==
    /\ CASE Ev.e = "start" -> CanStart(p, Ev.task) /\ p' = Start(p, Ev.task)
         [] Ev.e = "finish" -> CanFinish(p, Ev.task) /\ p' = Finish(p, Ev.task)
         [] Ev.e = "gone" ->
              \* Before the call to run it returns: it hasn't been accepted.
              LET x == Pending(Ev.th)
              IN IF x.c # 0 /\ ~x.done /\ Events[x.c].op = "run" /\ Events[x.c].task = Ev.task
                 THEN ~Returns(Events[x.c], "ok") /\ p' = Go(p, Ev.task)
                 ELSE CanGo(p, Ev.task) /\ p' = Go(p, Ev.task)
         [] OTHER -> FALSE
    /\ i' = i + 1
    /\ UNCHANGED <<e, u, pend>>

Waits(t, until) ==
    LET x == pend[t]
        o == Events[x.c]
    IN CASE x.c = 0 -> TRUE
         [] OTHER ->
              CASE o.op = "run" -> ~x.done /\ ~CanRun(p) /\ ~Cancelled(t)
                [] o.op = "wait" -> o.o \notin u.flags /\ ~Cancelled(t)
                [] o.op = "sleep" -> u.now < x.start + o.val /\ ~Cancelled(t)
                                     /\ until <= x.start + o.val
                [] o.op = "join" -> o.caller \notin u.ended
                [] o.op = "destroy" -> x.done /\ p.running # {}
                [] OTHER -> FALSE
AllWait(until) == Busy(p) /\ \A t \in DOMAIN pend : Waits(t, until)
Tick ==
    /\ Ev.e = "tick"
    /\ AllWait(Ev.now)
    /\ u' = [u EXCEPT !.now = Ev.now]
    /\ i' = i + 1
    /\ UNCHANGED <<e, p, pend>>

Barrier == IF AtEnd THEN TRUE
           ELSE Ev.e \in {"ret", "start", "gone", "tick"}
Submitted == {Events[k].task : k \in {x \in 1..Len(Events) :
                Events[x].e = "call" /\ Events[x].op = "run"}}
Explained ==
    /\ AtEnd
    /\ CASE Trace[e].end = "done" ->
              (\A t \in DOMAIN pend : pend[t] = NoOp) /\ p.gone = Submitted
         [] Trace[e].end = "stuck" -> AllWait(None)
         [] OTHER -> FALSE
    /\ PrintT(<<"DONE", e>>)
    /\ UNCHANGED vars

Next ==
    \/ Explained
    \/ /\ ~AtEnd
       /\ Call \/ Ret \/ Begin \/ End \/ Task \/ Tick
    \/ Barrier /\ \E t \in DOMAIN pend : Effect(t)
Spec == Init /\ [][Next]_vars
=============================================================================
