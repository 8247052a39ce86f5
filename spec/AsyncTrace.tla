----------------------------- MODULE AsyncTrace -----------------------------
(***************************************************************************)
(* Checks executions of concurrent programs, recorded as calls and returns *)
(* in the order they happened: is there an order in which the operations   *)
(* took effect in between that explains all results, and did threads wait  *)
(* only while they had to?  Each line of the trace is an execution; each   *)
(* for which there is such an order is reported as DONE.                   *)
(*                                                                         *)
(* Operations take effect as late as possible, that is, when something is  *)
(* to be explained: a return, or that all threads wait.                    *)
(***************************************************************************)
EXTENDS Async, Json, IOUtils, TLC, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES e,            \* The execution.
          i,            \* Its next event.
          s,            \* State of the program.
          pend          \* Operations going on, by thread.
vars == <<e, i, s, pend>>

Events == Trace[e].ev
Ev == Events[i]
NoOp == [c |-> 0]
Threads == DOMAIN pend

\* Effects of an operation are known from what it returned: which of the
\* things it waited for, or the operation itself (0).
Known(o) == "res" \in DOMAIN o
Active(o) == IF Known(o) /\ o.res = "ok"
             THEN SelectSeq([k \in 1..Len(o.items) |-> k],
                            LAMBDA k : o.rs[k].r # "none")
             ELSE <<>>
Looks == {"can_lock", "can_get", "can_put", "can_fget", "wait", "time",
          "wcancel", "wdeadline", "poll"}
\* What's only looked at may be looked at before or after other things are taken.
NextItems(o, todo) ==
    {1} \union {j \in 2..Len(todo) : /\ o.items[todo[j]].k \notin Looks
                                     /\ \A k \in 1..(j - 1) : o.items[todo[k]].k \in Looks}
Todo(o) ==
    IF o.op = "sel"
    THEN LET a == Active(o)
             look(k) == o.items[k].k \in Looks
         IN SelectSeq(a, look) \o SelectSeq(a, LAMBDA k : ~look(k))
    ELSE IF o.op \in {"cancel", "pop", "drop"} THEN <<0, 1>>
    ELSE IF o.op \in {"join", "sleep"} THEN <<>>
    ELSE <<0>>

\* Operations on queues and semaphores let others in before they have told
\* whether more can be got and put: until they return, that's uncertain.
Queued == {"get", "put", "can_get", "can_put"}
Counted == {"sget", "sput"}
Touches(o, it) ==
    CASE o.op = "sel" -> \E k \in 1..Len(o.items) :
                           /\ o.items[k].o = it.o
                           /\ \/ it.k \in Queued /\ o.items[k].k \in {"get", "put"}
                              \/ it.k \in Counted /\ o.items[k].k \in Counted
      [] o.op \in {"tryget", "tryput"} -> it.k \in Queued /\ o.o = it.o
      [] o.op \in {"stryget", "stryput"} -> it.k \in Counted /\ o.o = it.o
      [] OTHER -> FALSE
Uncertain(pd, t, it) ==
    /\ it.k \in Queued \union Counted
    /\ \E u \in DOMAIN pd \ {t} : pd[u].c # 0 /\ pd[u].n > 0 /\ Touches(Events[pd[u].c], it)
NotReady(st, pd, t, o, start) ==
    {k \in 1..Len(o.items) :
        \/ o.items[k].k \in {"time", "wdeadline", "poll"}
        \/ ~Ready(st, o.items[k], start)
        \/ Uncertain(pd, t, o.items[k])}
\* Keeps track of which things were not ready at some time.
Look(st, p) ==
    [t \in DOMAIN p |->
        IF p[t].c # 0 /\ Events[p[t].c].op = "sel"
        THEN [p[t] EXCEPT !.seen = @ \union NotReady(st, p, t, Events[p[t].c], p[t].start)]
        ELSE p[t]]

Config == Trace[e].ev[1]
Init ==
    /\ e \in 1..Len(Trace)
    /\ i = 2
    /\ s = IF Len(Trace[e].ev) = 0 THEN [now |-> 0]
           ELSE Initial(Config.mutexes, Config.flags, Config.queues,
                        Config.sems, Config.futures, Config.locks)
    /\ pend = [t \in {0} |-> NoOp]

Call ==
    /\ Ev.e = "call"
    /\ pend' = Look(s, [pend EXCEPT ![Ev.th] =
                  [c |-> i, todo |-> Todo(Ev), n |-> 0, start |-> s.now,
                   cancelled |-> Cancelled(s, Ev.th), seen |-> {}]])
    /\ i' = i + 1
    /\ UNCHANGED <<e, s>>

\* An operation takes effect, or a part of it does.
Effect(t) ==
    LET p == pend[t]
        o == Events[p.c]
        go(st, todo) ==
            /\ s' = st
            /\ pend' = Look(st, [pend EXCEPT ![t].todo = todo, ![t].n = @ + 1])
    IN /\ p.c # 0
       /\ p.todo # <<>>
       /\ CASE o.op = "sel" ->
                 \E m \in NextItems(o, p.todo) :
                 LET k == p.todo[m]
                 IN /\ ~p.cancelled
                    /\ \/ Ready(s, o.items[k], p.start)
                       \/ o.items[k].k \in {"can_get", "can_put"} /\ Uncertain(pend, t, o.items[k])
                       \* Polling ones don't mind when.
                       \/ /\ o.items[k].k = "poll"
                          /\ \E j \in 1..Len(o.items) :
                               o.items[j].k = "poll" /\ Ready(s, o.items[j], p.start)
                    /\ LET x == Take(s, o.items[k])
                       IN /\ x.r = o.rs[k].r /\ x.v = o.rs[k].v
                          /\ go(x.s, RemoveAt(p.todo, m))
            [] o.op \in {"cancel", "pop", "drop"} ->
                 IF Head(p.todo) = 0
                 THEN \/ \E st \in CancelSome(s, o.ctx) : go(st, p.todo)
                      \/ /\ NotYetCancelled(s, o.ctx) = {}
                         /\ go(s, Tail(p.todo))
                 ELSE go(IF o.op # "cancel" THEN [s EXCEPT !.ctx[o.ctx].live = FALSE]
                         ELSE s, Tail(p.todo))
            [] OTHER ->
                 LET x == Do(s, t, o)
                 IN /\ Known(o) => /\ x.r = o.res
                                   /\ "v" \in DOMAIN o => x.v = o.v
                    /\ go(x.s, Tail(p.todo))
       /\ UNCHANGED <<e, i>>

\* What an operation that has returned must have been through.
Returns(t) ==
    LET p == pend[t]
        o == Events[p.c]
    IN /\ p.todo = <<>>
       /\ CASE o.op = "sel" ->
                 CASE o.res = "ok" ->
                        /\ ~p.cancelled
                        /\ Active(o) # <<>>
                        \* Whatever was ready all the time was noticed.
                        /\ \A k \in 1..Len(o.items) :
                             o.rs[k].r = "none" => k \in p.seen
                   [] o.res = "cancelled" -> Cancelled(s, t)
                   [] o.res = "deadline_exceeded" ->
                        Deadline(s, t) <= s.now /\ ~p.cancelled
                   [] OTHER -> FALSE
            [] o.op = "udrop" -> o.res = "ok" /\ s.ulk[o.o].refs = {}
            [] o.op \in {"pop", "drop"} -> o.res = "ok" /\ Children(s, o.ctx) = {}
            [] o.op = "sleep" -> o.res = "ok" /\ s.now >= p.start + o.val
            [] o.op = "join" -> o.res = "ok" /\ o.target \in s.ended
            [] o.op = "cancel" -> o.res = "ok"
            [] OTHER -> TRUE
Ret ==
    /\ Ev.e = "ret"
    /\ Returns(Ev.th)
    /\ LET o == Events[pend[Ev.th].c]
           st == IF o.op = "pop"
                 THEN [s EXCEPT !.stack[Ev.th] = Front(@)] ELSE s
       IN s' = st
    /\ pend' = [pend EXCEPT ![Ev.th] = NoOp]
    /\ i' = i + 1
    /\ UNCHANGED e

\* A new thread gets a context of its own below the one others know.
Inner(c) == c + 1000
Inherit(st, c) == IF Inner(c) \in DOMAIN st.ctx THEN st
                  ELSE NewContext(st, Inner(c), c, FALSE, -1)
\* Before something is done to that one, for a change.
Early(t) ==
    LET p == pend[t]
        o == Events[p.c]
    IN /\ p.c # 0
       /\ p.todo # <<>>
       /\ o.op \in {"dset", "timeout"}
       /\ o.ctx \in 1000..1999
       /\ Inner(o.ctx) \notin DOMAIN s.ctx
       /\ s' = Inherit(s, o.ctx)
       /\ UNCHANGED <<e, i, pend>>
Begin ==
    /\ Ev.e = "begin"
    /\ Ev.ctx \in DOMAIN s.ctx
    /\ s' = [Inherit(s, Ev.ctx) EXCEPT !.stack =
                [t \in DOMAIN @ \union {Ev.th} |->
                   IF t = Ev.th THEN <<Inner(Ev.ctx)>> ELSE @[t]]]
    /\ pend' = [t \in DOMAIN pend \union {Ev.th} |->
                IF t = Ev.th THEN NoOp ELSE pend[t]]
    /\ i' = i + 1
    /\ UNCHANGED e
End ==
    /\ Ev.e = "end"
    /\ pend[Ev.th] = NoOp
    /\ s' = [s EXCEPT !.ended = @ \union {Ev.th},
                     !.ctx[Current(s, Ev.th)].live = FALSE]
    /\ i' = i + 1
    /\ UNCHANGED <<e, pend>>

\* Some other thread waits for the users of a usage lock to finish.
Dropping(t, u) ==
    \E x \in Threads \ {t} :
        /\ pend[x].c # 0
        /\ Events[pend[x].c].op = "udrop"
        /\ Events[pend[x].c].o = u
        /\ pend[x].todo = <<>>
\* Thread t waits, and will not go on by itself before the given time.
Waits(t, until) ==
    LET p == pend[t]
        o == Events[p.c]
    IN CASE p.c = 0 -> TRUE
         [] OTHER ->
              CASE o.op = "sel" ->
                     /\ p.n = 0
                     /\ ~CanGoOn(s, t, o.items, p.start)
                     /\ WakeTime(s, t, o.items, p.start) >= until
                [] o.op = "sleep" -> p.start + o.val >= until /\ s.now < p.start + o.val
                [] o.op = "join" -> o.target \notin s.ended
                \* Only one thread at a time can arm or drop.
                [] o.op = "udrop" ->
                     \/ p.todo = <<>> /\ s.ulk[o.o].refs # {}
                     \/ p.todo # <<>> /\ Dropping(t, o.o)
                [] o.op = "uarm" -> p.todo # <<>> /\ Dropping(t, o.o)
                [] o.op \in {"pop", "drop"} -> p.todo = <<>> /\ Children(s, o.ctx) # {}
                [] OTHER -> FALSE
Tick ==
    /\ Ev.e = "tick"
    /\ \A t \in Threads : Waits(t, Ev.now)
    /\ s' = [s EXCEPT !.now = Ev.now]
    /\ pend' = Look(s', pend)
    /\ i' = i + 1
    /\ UNCHANGED e

AtEnd == i > Len(Events)
Barrier == IF AtEnd THEN TRUE ELSE Ev.e \in {"ret", "begin", "tick"}
Explained ==
    /\ AtEnd
    /\ CASE Trace[e].end = "done" -> \A t \in Threads : pend[t] = NoOp
         [] Trace[e].end = "stuck" -> \A t \in Threads : Waits(t, Far)
         [] OTHER -> FALSE
    /\ PrintT(<<"DONE", e>>)
    /\ UNCHANGED vars

Next ==
    \/ Explained
    \/ /\ ~AtEnd
       /\ Call \/ Ret \/ Begin \/ End \/ Tick
    \/ Barrier /\ \E t \in Threads : Effect(t) \/ Early(t)
Spec == Init /\ [][Next]_vars
=============================================================================
