------------------------------ MODULE RpcTrace ------------------------------
(***************************************************************************)
(* Checks executions of programs that call methods of remote objects, cf.  *)
(* AsyncTrace.                                                             *)
(***************************************************************************)
EXTENDS Rpc, Json, IOUtils, TLC, FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES e, i,
          c,            \* Calls.
          s,            \* The server: [up, names, gone objects].
          l,            \* Links by client: [down: why, bad: when last].
          u,            \* [now, flags, cancelled, ended, thread].
          pend          \* Operations going on, by thread.
vars == <<e, i, c, s, l, u, pend>>

Events == Trace[e].ev
Ev == Events[i]
Config == Trace[e].ev[1]
AtEnd == i > Len(Events)
NoOp == [c |-> 0]
Clients == {0, 1}

Init ==
    /\ e \in 1..Len(Trace)
    /\ i = 2
    /\ c = [n \in {} |-> 0]
    /\ s = [up |-> "none", names |-> NewNames, gone |-> {}]
    /\ l = [k \in Clients |-> [down |-> "", bad |-> 0]]
    /\ u = [now |-> 0, flags |-> {}, cancelled |-> {}, ended |-> {},
            thread |-> [t \in {0} |-> -1]]
    /\ pend = [t \in {0} |-> NoOp]

With(f, k, x) == [j \in DOMAIN f \union {k} |-> IF j = k THEN x ELSE f[j]]
Cancelled(t) == IF t \in DOMAIN u.thread THEN u.thread[t] \in u.cancelled ELSE FALSE
Op(t) == Events[pend[t].c]
Known(o) == "res" \in DOMAIN o
Returns(o, r) == IF Known(o) THEN o.res = r ELSE FALSE
Field(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

\* Calls end because of link trouble.
Breaks(k) == [l EXCEPT ![k].bad = i]
AllBreak == [k \in Clients |-> [down |-> IF l[k].down = "" THEN "stop" ELSE l[k].down,
                                bad |-> i]]
\* Sending is abandoned half way, which breaks the link.
Interrupted(o) == IF o.op \in {"rpc", "start"}
                  THEN Returns(o, "cancelled") \/ Returns(o, "deadline_exceeded") ELSE FALSE
Trouble(n) ==
    LET k == c[n].cl
    IN \/ l[k].bad > c[n].at
       \/ l[k].down # ""
       \/ s.up \in {"stopping", "none"}
       \/ \E t \in DOMAIN pend :
             IF pend[t].c = 0 THEN FALSE
             ELSE \/ IF Op(t).op \in {"rpc", "start"}
                     THEN Op(t).n # n /\ Op(t).cl = k /\ ~c[Op(t).n].sent /\ Interrupted(Op(t))
                     ELSE FALSE
                  \/ IF Op(t).op = "break" THEN Op(t).cl = k ELSE FALSE
Busy == Cardinality(Executing(c)) = Config.workers

Call ==
    /\ Ev.e = "call"
    /\ pend' = With(pend, Ev.th, [c |-> i, start |-> Ev.now])
    /\ LET dooming(k) == [n \in DOMAIN c |->
                            IF c[n].cl = k /\ c[n].sent THEN Doom(c[n]) ELSE c[n]]
           renaming(nm, o) ==
                /\ s' = [s EXCEPT !.names = Changing(@, nm, o)]
                /\ c' = [n \in DOMAIN c |-> IF c[n].name = nm
                             THEN [c[n] EXCEPT !.can = @ \union {o}] ELSE c[n]]
       IN CASE Ev.op \in {"rpc", "start"} ->
                 /\ Ev.n \notin DOMAIN c
                 /\ c' = With(c, Ev.n, NewCall(Ev.cl, Ev.name, Ev.m, Ev.a, Ev.tag, Ev.now,
                                               Ev.to, Ev.dl, s.names, i))
                 /\ UNCHANGED <<s, l, u>>
            [] Ev.op = "abandon" ->
                 c' = [c EXCEPT ![Ev.n].stopping = TRUE] /\ UNCHANGED <<s, l, u>>
            [] Ev.op = "add" -> renaming(Ev.name, Ev.o + 1) /\ UNCHANGED <<l, u>>
            [] Ev.op = "remove" -> renaming(Ev.name, 0) /\ UNCHANGED <<l, u>>
            [] Ev.op = "removeo" ->
                 LET ns == NamesOf(s.names, Ev.o + 1)
                 IN /\ s' = [s EXCEPT !.names = [n \in DOMAIN @ |->
                                IF n \in ns THEN @[n] \union {0} ELSE @[n]]]
                    /\ c' = [n \in DOMAIN c |-> IF c[n].name \in ns
                                THEN [c[n] EXCEPT !.can = @ \union {0}] ELSE c[n]]
                    /\ UNCHANGED <<l, u>>
            [] Ev.op = "run" -> s' = [s EXCEPT !.up = "on"] /\ UNCHANGED <<c, l, u>>
            [] Ev.op \in {"stop", "delete"} ->
                 s' = [s EXCEPT !.up = "stopping"] /\ UNCHANGED <<c, l, u>>
            [] Ev.op = "set" -> u' = [u EXCEPT !.flags = @ \union {Ev.o}] /\ UNCHANGED <<c, s, l>>
            [] Ev.op = "cancel" ->
                 u' = [u EXCEPT !.cancelled = @ \union {Ev.target}] /\ UNCHANGED <<c, s, l>>
            [] OTHER -> UNCHANGED <<c, s, l, u>>
    /\ i' = i + 1
    /\ UNCHANGED e

\* A call of a method that was made by thread t ends.
Ended(n, t, o) ==
    LET x == c[n]
        v == Field(o, "v", <<>>)
        msg == Field(o, "msg", "")
        finished == EndsAsExecuted(x, o.res, v, msg)
        found == ~EndsNotFound(x, o.res, msg)
    IN /\ \/ finished
          \/ ~found
          \/ o.res = "cancelled" /\ (Cancelled(t) \/ (o.op = "get" /\ x.stopping))
          \/ EndsLate(x, o.res, Ev.now)
          \/ o.res \in {"io_error", "eof"} /\ Trouble(n)
       /\ c' = [c EXCEPT ![n].over = TRUE,
                         ![n].given = ~found /\ ~Trouble(n) /\ ~Cancelled(t),
                         ![n].stopping = @ \/ (o.op = "rpc" /\ o.res = "cancelled"),
                         ![n].stopped = @ \/ (o.op = "rpc" /\ o.res = "cancelled")]
       /\ l' = IF ~finished /\ ~x.sent /\ Interrupted(o) THEN Breaks(x.cl) ELSE l

Method(t) == {n \in Executing(c) : c[n].th = t}
Interrupts(t, r) ==
    \/ r = "cancelled" /\ Cancelled(t)
    \/ \E n \in Method(t) :
          \/ r = "cancelled" /\ (c[n].stopping \/ \E k \in DOMAIN pend :
                IF pend[k].c = 0 THEN FALSE
                ELSE IF Op(k).op = "rpc" THEN Op(k).n = n /\ Cancelled(k) ELSE FALSE)
          \/ r = "deadline_exceeded" /\ Ev.now >= c[n].until - 1

Ret ==
    /\ Ev.e = "ret"
    /\ LET t == Ev.th
           o == Op(t)
           dooming(ns) == [n \in DOMAIN c |-> IF n \in ns THEN Doom(c[n]) ELSE c[n]]
       IN CASE o.op \in {"rpc", "get"} -> Ended(o.n, t, o) /\ UNCHANGED <<s, u>>
            [] o.op = "start" ->
                 IF o.res = "ok"
                 THEN c' = [c EXCEPT ![o.n].sent = TRUE] /\ UNCHANGED <<s, l, u>>
                 ELSE Ended(o.n, t, o) /\ UNCHANGED <<s, u>>
            [] o.op = "abandon" ->
                 /\ IF o.res = "ok" THEN c' = [c EXCEPT ![o.n].stopped = TRUE]
                    ELSE o.res = "cancelled" /\ Cancelled(t) /\ c' = c
                 /\ UNCHANGED <<s, l, u>>
            [] o.op = "add" ->
                 /\ o.res = "ok"
                 /\ s' = [s EXCEPT !.names = Changed(@, o.name, o.o + 1)]
                 /\ UNCHANGED <<c, l, u>>
            [] o.op = "remove" ->
                 /\ o.res = "ok"
                 /\ s' = [s EXCEPT !.names = Changed(@, o.name, 0)]
                 /\ UNCHANGED <<c, l, u>>
            [] o.op = "removeo" ->
                 /\ o.res = "ok"
                 /\ s' = [s EXCEPT !.names = [n \in DOMAIN @ |->
                             IF o.o + 1 \in @[n] THEN {0} ELSE @[n]]]
                 /\ UNCHANGED <<c, l, u>>
            [] o.op = "destroy" ->
                 /\ o.res = "ok"
                 /\ Running(c, o.o + 1) = {}
                 /\ s' = [s EXCEPT !.gone = @ \union {o.o + 1}]
                 /\ UNCHANGED <<c, l, u>>
            [] o.op = "stop" ->
                 /\ o.res = "ok"
                 /\ s' = [s EXCEPT !.up = "off"]
                 /\ l' = AllBreak
                 \* Requests that weren't seen by the server may be later.
                 /\ c' = dooming({n \in DOMAIN c : c[n].st # "new"})
                 /\ u' = u
            [] o.op = "delete" ->
                 /\ o.res = "ok"
                 /\ Executing(c) = {}
                 /\ s' = [s EXCEPT !.up = "gone"]
                 /\ l' = AllBreak
                 /\ c' = dooming({n \in DOMAIN c : c[n].st # "new"})
                 /\ u' = u
            [] o.op = "break" ->
                 /\ o.res = "ok"
                 /\ l' = [l EXCEPT ![o.cl] = [down |-> "break", bad |-> i]]
                 /\ c' = dooming({n \in DOMAIN c : c[n].cl = o.cl /\ c[n].sent})
                 /\ UNCHANGED <<s, u>>
            [] o.op = "wait" ->
                 /\ IF o.res = "ok" THEN o.o \in u.flags ELSE Interrupts(t, o.res)
                 /\ UNCHANGED <<c, s, l, u>>
            [] o.op = "sleep" ->
                 /\ IF o.res = "ok" THEN Ev.now >= pend[t].start + o.val
                    ELSE Interrupts(t, o.res)
                 /\ UNCHANGED <<c, s, l, u>>
            [] o.op = "join" -> o.res = "ok" /\ o.t \in u.ended /\ UNCHANGED <<c, s, l, u>>
            [] o.op \in {"create", "run", "client", "close", "spawn", "cancel", "set"} ->
                 o.res = "ok" /\ UNCHANGED <<c, s, l, u>>
    /\ pend' = [pend EXCEPT ![Ev.th] = NoOp]
    /\ i' = i + 1
    /\ UNCHANGED e

Exec ==
    /\ Ev.e = "exec"
    /\ Ev.n \in DOMAIN c
    /\ ~Busy
    /\ Ev.o + 1 \notin s.gone
    /\ s.up \notin {"none", "gone"}
    /\ CanExecute(c[Ev.n], Ev.o + 1, Ev.m, Ev.tag, Ev.left, Ev.now, Config.to)
    /\ Field(Ev, "a", <<>>) = c[Ev.n].a
    /\ c' = [c EXCEPT ![Ev.n] = Execute(@, Ev.o + 1, Ev.th, Ev.left, Ev.now)]
    /\ pend' = With(pend, Ev.th, NoOp)
    /\ i' = i + 1
    /\ UNCHANGED <<e, s, l, u>>
Done ==
    /\ Ev.e = "done"
    /\ c[Ev.n].st = "exec"
    /\ c[Ev.n].th = Ev.th
    /\ c' = [c EXCEPT ![Ev.n] =
                Finish(@, Ev.r, Field(Ev, "v", <<>>), Field(Ev, "msg", ""))]
    /\ i' = i + 1
    /\ UNCHANGED <<e, s, l, u, pend>>

\* The calls which used the previous link are lost.
Link ==
    /\ Ev.e \in {"link", "nolink"}
    /\ LET own == IF Ev.th \in DOMAIN pend
                  THEN IF pend[Ev.th].c = 0 THEN 0
                       ELSE IF Op(Ev.th).op \in {"rpc", "start"} THEN Op(Ev.th).n ELSE 0
                  ELSE 0
       IN /\ c' = [n \in DOMAIN c |->
                     IF c[n].cl # Ev.cl THEN c[n]
                     ELSE IF n = own THEN c[n]
                     ELSE IF c[n].sent THEN Doom(c[n]) ELSE c[n]]
          /\ l' = [l EXCEPT ![Ev.cl] = [down |-> IF Ev.e = "link" THEN "" ELSE "break",
                                        bad |-> i]]
    /\ i' = i + 1
    /\ UNCHANGED <<e, s, u, pend>>

Begin ==
    /\ Ev.e = "begin"
    /\ u' = [u EXCEPT !.thread = With(@, Ev.th, Ev.t)]
    /\ pend' = With(pend, Ev.th, NoOp)
    /\ i' = i + 1
    /\ UNCHANGED <<e, c, s, l>>
End ==
    /\ Ev.e = "end"
    /\ u' = [u EXCEPT !.ended = @ \union {u.thread[Ev.th]}]
    /\ i' = i + 1
    /\ UNCHANGED <<e, c, s, l, pend>>

\* Nothing can be done before time passes: then only those wait who have to.
Pending(n, t, now, until) ==
    LET x == c[n]
    IN /\ ~Cancelled(t)
       /\ ~x.doomed
       /\ ~(Op(t).op = "get" /\ x.stopped)
       /\ l[x.cl].down # "break"
       /\ now <= x.deadline + 1
       /\ until <= x.deadline + 1
       /\ CASE x.st = "new" -> Busy \/ s.up # "on"
            [] x.st = "exec" -> TRUE
            [] x.st = "done" -> Busy
\* The server got to know that this call isn't wanted any longer.
Told(n) == /\ c[n].stopped
           /\ ~Busy
           /\ s.up = "on"
           /\ l[c[n].cl].bad < c[n].at
           /\ l[c[n].cl].down = ""
MayWait(t, now, until) ==
    /\ ~Cancelled(t)
    /\ \A n \in Method(t) : /\ ~Told(n)
                            /\ now <= c[n].until + 1
                            /\ until <= c[n].until + 1
Waits(t, now, until) ==
    LET p == pend[t]
        o == Events[p.c]
    IN CASE p.c = 0 -> TRUE
         [] OTHER ->
              CASE o.op \in {"rpc", "get"} -> Pending(o.n, t, now, until)
                [] o.op = "sleep" -> /\ now <= p.start + o.val
                                     /\ until <= p.start + o.val + 1
                                     /\ MayWait(t, now, until)
                [] o.op = "wait" -> o.o \notin u.flags /\ MayWait(t, now, until)
                [] o.op = "join" -> o.t \notin u.ended
                [] o.op = "destroy" -> Running(c, o.o + 1) # {}
                [] o.op = "delete" -> Executing(c) # {}
                [] OTHER -> FALSE
Tick ==
    /\ Ev.e = "tick"
    /\ \A t \in DOMAIN pend : Waits(t, u.now, Ev.now)
    /\ c' = [n \in DOMAIN c |->
               IF \E t \in DOMAIN pend :
                     IF pend[t].c = 0 THEN FALSE
                     ELSE IF Op(t).op = "rpc" THEN Op(t).n = n ELSE FALSE
               THEN [c[n] EXCEPT !.sent = TRUE] ELSE c[n]]
    /\ u' = [u EXCEPT !.now = Ev.now]
    /\ i' = i + 1
    /\ UNCHANGED <<e, s, l, pend>>

Explained ==
    /\ AtEnd
    /\ CASE Trace[e].end = "done" ->
              /\ \A t \in DOMAIN pend : pend[t] = NoOp
              /\ Executing(c) = {}
         [] Trace[e].end = "stuck" -> \A t \in DOMAIN pend : Waits(t, u.now, 0)
         [] OTHER -> FALSE
    /\ PrintT(<<"DONE", e>>)
    /\ UNCHANGED vars

Next ==
    \/ Explained
    \/ /\ ~AtEnd
       /\ \/ Call \/ Ret \/ Exec \/ Done \/ Link \/ Begin \/ End \/ Tick
Spec == Init /\ [][Next]_vars
=============================================================================
