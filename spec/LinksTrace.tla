----------------------------- MODULE LinksTrace -----------------------------
(***************************************************************************)
(* Checks executions of programs that use connections, cf. AsyncTrace.     *)
(* Link 0 stands for a connection that is made anew when it was closed.    *)
(***************************************************************************)
EXTENDS Links, Json, IOUtils, TLC, FiniteSets, FiniteSetsExt, Functions

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES e, i,
          lk,           \* Links.
          u,            \* [now, cancelled, ended, thread, cur: the link in use].
          pend          \* Operations going on, by thread.
vars == <<e, i, lk, u, pend>>

Events == Trace[e].ev
Ev == Events[i]
AtEnd == i > Len(Events)
None == 1000000
NoOp == [c |-> 0]

Init ==
    /\ e \in 1..Len(Trace)
    /\ i = 2
    /\ lk = <<>>
    /\ u = [now |-> 0, cancelled |-> {}, ended |-> {}, cur |-> 0,
            thread |-> [t \in {0} |-> -1]]
    /\ pend = [t \in {0} |-> NoOp]

Set(t, x) == [k \in DOMAIN pend \union {t} |-> IF k = t THEN x ELSE pend[k]]
Cancelled(t) == IF t \in DOMAIN u.thread THEN u.thread[t] \in u.cancelled ELSE FALSE
Reads == {"read", "full", "getc", "aread", "mread"}
Writes == {"write", "awrite", "mwrite"}
Looks == {"avail"}
OnLink == Reads \union Writes \union Looks \union {"close", "shut", "connected"}

\* Whoever does something of that kind at that end.
At(l, k, kind) ==
    {t \in DOMAIN pend :
        IF pend[t].c = 0 THEN FALSE
        ELSE LET o == Events[pend[t].c]
             IN IF o.op \in kind THEN pend[t].l = l /\ o.k = k ELSE FALSE}
Known(o) == "res" \in DOMAIN o
\* How much it is going to have written at most.
Most(o) ==
    IF ~Known(o) THEN Len(o.b)
    ELSE IF o.op = "write" THEN Len(o.b)
    ELSE IF o.res = "ok" THEN o.v
    ELSE IF o.res = "io_error" THEN Len(o.b) ELSE 0
\* What's being written, and hasn't been read yet.
Writers(l, k) == At(l, Other(k), Writes)
Writer(l, k) == Events[pend[CHOOSE t \in Writers(l, k) : TRUE].c]
Rest(l, k) ==
    IF Writers(l, k) = {} THEN <<>>
    ELSE SubSeq(Writer(l, k).b, lk[l].pre[k] + 1, Most(Writer(l, k)))
\* What's on its way to who doesn't read any longer doesn't matter.
Norm(ls, l, k, t) ==
    IF l > 0 /\ ls[l].dead[k] /\ At(l, k, Reads) \ {t} = {}
    THEN [ls EXCEPT ![l].data[k] = <<>>, ![l].pre[k] = 0, ![l].eof[k] = FALSE]
    ELSE ls

Call ==
    /\ Ev.e = "call"
    /\ LET l == IF Ev.op \in OnLink THEN IF Ev.l = 0 THEN -1 ELSE Ev.l ELSE 0
       IN /\ pend' = Set(Ev.th, [c |-> i, l |-> l, start |-> u.now, done |-> FALSE,
                                 opened |-> 0,
                                 empty |-> IF l > 0 /\ Ev.op = "mread"
                                           THEN lk[l].data[Ev.k] = <<>> /\ ~lk[l].eof[Ev.k]
                                           ELSE FALSE])
          /\ lk' = IF l > 0 /\ Ev.op = "close" THEN [lk EXCEPT ![l] = Close(@, Ev.k)]
                   ELSE IF l > 0 /\ Ev.op = "shut"
                   THEN [lk EXCEPT ![l] = Shut(@, Ev.k, Ev.r = 1)]
                   ELSE lk
    \* Whether operations are cancelled only matters when they return, and time
    \* passes.
    /\ u' = IF Ev.op = "cancel" THEN [u EXCEPT !.cancelled = @ \union {Ev.target}] ELSE u
    /\ i' = i + 1
    /\ UNCHANGED e

Op(t) == IF pend[t].c = 0 THEN "" ELSE Events[pend[t].c].op

\* Those that close the connection that's made anew.
Closing == {t \in DOMAIN pend : Op(t) = "close" /\ Events[pend[t].c].l = 0}
\* It matters what else happens before.
Matters(t) ==
    IF AtEnd THEN TRUE
    ELSE IF Ev.e \in {"tick", "open"} THEN TRUE
    ELSE IF Ev.e # "ret" THEN FALSE
    ELSE IF Ev.th = t THEN TRUE
    \* What's being written can be read already.
    ELSE IF Op(Ev.th) \in Reads \union Looks THEN TRUE
    ELSE
    \/ \E s \in Closing : s # t /\ ~pend[s].done
    \/ \E s \in DOMAIN pend : s # t /\ Op(s) = "connect" /\ ~pend[s].done

\* What is done with the connection that's made anew is done with the link it
\* has at some time.
Effect(t) ==
    LET p == pend[t]
        o == Events[p.c]
        done == pend' = [pend EXCEPT ![t].done = TRUE]
    IN /\ p.c # 0
       /\ ~p.done
       /\ CASE p.l = -1 ->
                 /\ pend' = [pend EXCEPT ![t].l = u.cur,
                                         ![t].done = o.op # "close" \/ u.cur = 0]
                 /\ IF o.op = "close"
                    THEN lk' = IF u.cur = 0 THEN lk ELSE [lk EXCEPT ![u.cur] = Close(@, 1)]
                    ELSE Matters(t) /\ lk' = lk
                 /\ u' = u
            [] o.op = "close" /\ t \in Closing ->
                 done /\ u' = [u EXCEPT !.cur = 0] /\ lk' = lk
            [] o.op = "connect" ->
                 /\ done
                 /\ lk' = lk
                 /\ IF p.opened # 0 THEN u' = [u EXCEPT !.cur = p.opened]
                    ELSE /\ Matters(t)
                         /\ u' = u
                         /\ Known(o) => (o.res = "ok") = (u.cur # 0)
            [] OTHER -> FALSE
       /\ UNCHANGED <<e, i>>

Open ==
    /\ Ev.e = "open"
    /\ u.cur = 0
    /\ Ev.l = Len(lk) + 1
    /\ lk' = Append(lk, NewLink)
    /\ pend' = IF pend[Ev.th].c # 0
               THEN [pend EXCEPT ![Ev.th].opened = Ev.l] ELSE pend
    /\ i' = i + 1
    /\ UNCHANGED <<e, u>>

\* The bytes somebody got to see.
Seen == [x \in 1..Len(Trace) |->
           UNION {IF Trace[x].ev[j].e = "call" /\ "d" \in DOMAIN Trace[x].ev[j]
                  THEN Range(Trace[x].ev[j].d) ELSE {} : j \in 1..Len(Trace[x].ev)}]
\* All bytes are different, so that it's clear how many were lost when reading
\* failed.
Unseen(s, n) ==
    CHOOSE j \in 0..n :
        /\ j <= Len(s)
        /\ \A y \in 1..j : s[y] \notin Seen[e]
        /\ IF j = n \/ j = Len(s) THEN TRUE ELSE s[j + 1] \in Seen[e]
LoseSome(l, k, n) ==
    LET j == Unseen(lk[l].data[k] \o Rest(l, k), n)
    IN lk' = [lk EXCEPT ![l] = [Read(@, k, j) EXCEPT !.more[k] = @ \/ j > 0]]
\* Some data was read before the end.
LoseAll(l, k, n) ==
    LET rest == IF Writers(l, k) = {} THEN 0
                ELSE LET o == Writer(l, k)
                     IN IF ~Known(o) THEN 0
                        ELSE IF o.res = "ok" THEN Len(Rest(l, k)) ELSE 0
        j == Len(lk[l].data[k]) + rest
        x == Read(lk[l], k, j)
    IN j < n /\ CanSeeEnd(x, k) /\ lk' = [lk EXCEPT ![l] = SeeEnd(x, k)]
ReadReturns(t, l, o) ==
    LET x == lk[l]
        k == o.k
    IN CASE o.res = "ok" ->
              LET y == Read(x, k, Len(o.d))
              IN /\ CanRead(x, k, Rest(l, k), o.d)
                 /\ IF o.op \in {"read", "full", "getc"}
                    THEN IF Len(o.d) = o.n THEN lk' = [lk EXCEPT ![l] = y]
                         ELSE /\ o.op = "read"
                              /\ CanSeeEnd(y, k)
                              /\ lk' = [lk EXCEPT ![l] = SeeEnd(y, k)]
                    ELSE Len(o.d) \in 1..o.n /\ lk' = [lk EXCEPT ![l] = y]
         [] o.res = "try_again" -> o.op = "mread" /\ pend[t].empty /\ lk' = lk
         [] o.res = "eof" -> o.op # "read" /\ LoseAll(l, k, IF o.op = "full" THEN o.n ELSE 1)
         [] o.res = "io_error" -> ReadFails(x, k) /\ LoseSome(l, k, o.n)
         [] o.res = "cancelled" ->
              /\ Cancelled(t) /\ o.op # "mread"
              /\ LoseSome(l, k, IF o.op = "aread" THEN 0 ELSE o.n)
         [] OTHER -> FALSE
WriteReturns(t, l, o) ==
    LET x == lk[l]
        k == o.k
        \* It's enough if what was seen was written.
        some(n) == /\ CanWrite(x, k, n)
                   /\ lk' = [lk EXCEPT ![l] = [Write(x, k, o.b, n) EXCEPT
                                !.more[Other(k)] = @ \/ n < Len(o.b)]]
        need == {0, x.pre[Other(k)]} \union {n \in 1..Len(o.b) : o.b[n] \in Seen[e]}
        put(n) == CanWrite(x, k, n) /\ lk' = [lk EXCEPT ![l] = Write(x, k, o.b, n)]
    IN CASE o.res = "ok" ->
              IF o.op = "write" THEN put(Len(o.b)) ELSE o.v \in 1..Len(o.b) /\ put(o.v)
         [] o.res = "try_again" -> o.op = "mwrite" /\ Events[1].small = 1 /\ put(0)
         [] o.res = "io_error" ->
              WriteFails(x, k) /\ some(Max(need))
         [] o.res = "cancelled" ->
              /\ Cancelled(t) /\ o.op # "mwrite"
              /\ IF o.op = "write" THEN some(Max(need)) ELSE put(0)
         [] OTHER -> FALSE

Ret ==
    /\ Ev.e = "ret"
    /\ LET t == Ev.th
           p == pend[t]
           o == Events[p.c]
       IN CASE p.l = -1 -> FALSE
            [] o.op \in Reads \union Writes ->
                 IF p.l = 0 THEN o.res = "io_error" /\ lk' = lk
                 ELSE IF o.op \in Reads THEN ReadReturns(t, p.l, o)
                 ELSE WriteReturns(t, p.l, o)
            [] o.op = "avail" ->
                 /\ CASE o.res = "ok" ->
                           \/ lk[p.l].data[o.k] \o Rest(p.l, o.k) # <<>>
                           \/ Over(lk[p.l], o.k)
                           \/ lk[p.l].more[o.k]
                      [] o.res = "cancelled" -> Cancelled(t)
                      [] OTHER -> FALSE
                 /\ lk' = lk
            [] o.op = "connected" ->
                 /\ o.res = "ok"
                 \* May have been so when it was looked at.
                 /\ IF p.l = 0 THEN o.v = 0
                    ELSE o.v = 0 => lk[p.l].dead[o.k]
                 /\ lk' = lk
            [] o.op = "connect" ->
                 /\ o.res \in {"ok", "io_error"}
                 /\ p.done
                 /\ o.res = "io_error" => p.opened = 0
                 /\ lk' = lk
            [] o.op \in {"close", "shut", "spawn", "cancel"} ->
                 /\ o.res = "ok"
                 /\ t \in Closing => p.done
                 /\ lk' = IF o.op = "close" THEN Norm(lk, p.l, o.k, t) ELSE lk
            [] o.op = "sleep" ->
                 /\ IF o.res = "ok" THEN u.now >= p.start + o.val
                    ELSE o.res = "cancelled" /\ Cancelled(t)
                 /\ lk' = lk
            [] o.op = "join" -> o.res = "ok" /\ o.t \in u.ended /\ lk' = lk
    /\ pend' = [pend EXCEPT ![Ev.th] = NoOp]
    /\ i' = i + 1
    /\ UNCHANGED <<e, u>>

Begin ==
    /\ Ev.e = "begin"
    /\ u' = [u EXCEPT !.thread = [t \in DOMAIN @ \union {Ev.th} |->
                IF t = Ev.th THEN Ev.t ELSE @[t]]]
    /\ pend' = Set(Ev.th, NoOp)
    /\ i' = i + 1
    /\ UNCHANGED <<e, lk>>
End ==
    /\ Ev.e = "end"
    /\ u' = [u EXCEPT !.ended = @ \union {u.thread[Ev.th]}]
    /\ i' = i + 1
    /\ UNCHANGED <<e, lk, pend>>

Waits(t, until) ==
    LET p == pend[t]
        o == Events[p.c]
    IN CASE p.c = 0 -> TRUE
         [] p.l = -1 -> FALSE
         [] OTHER ->
              CASE o.op \in {"read", "full", "getc"} ->
                     p.l # 0 /\ ReadWaits(lk[p.l], o.k, o.n) /\ ~Cancelled(t)
                [] o.op \in {"aread", "avail"} ->
                     ReadWaits(lk[p.l], o.k, 1) /\ ~Cancelled(t)
                [] o.op \in {"write", "awrite"} ->
                     /\ p.l # 0
                     \* Others have room for more than is ever written.
                     /\ Events[1].small = 1
                     /\ WriteWaits(lk[p.l], o.k, Drop(o.b, lk[p.l].pre[Other(o.k)]))
                     /\ ~Cancelled(t)
                     \* Nobody waits to read at the other end.
                     /\ At(p.l, Other(o.k), Reads \union Looks) = {}
                [] o.op = "sleep" -> /\ u.now < p.start + o.val /\ ~Cancelled(t)
                                     /\ until <= p.start + o.val
                [] o.op = "join" -> o.t \notin u.ended
                [] OTHER -> FALSE
Tick ==
    /\ Ev.e = "tick"
    /\ \A t \in DOMAIN pend : Waits(t, Ev.now)
    /\ u' = [u EXCEPT !.now = Ev.now]
    /\ i' = i + 1
    /\ UNCHANGED <<e, lk, pend>>

Barrier == IF AtEnd THEN TRUE ELSE Ev.e \in {"ret", "tick", "open"}
Explained ==
    /\ AtEnd
    /\ CASE Trace[e].end = "done" -> \A t \in DOMAIN pend : pend[t] = NoOp
         [] Trace[e].end = "stuck" -> \A t \in DOMAIN pend : Waits(t, None)
         [] OTHER -> FALSE
    /\ PrintT(<<"DONE", e>>)
    /\ UNCHANGED vars

Next ==
    \/ Explained
    \/ /\ ~AtEnd
       /\ Call \/ Ret \/ Begin \/ End \/ Open \/ Tick
    \/ Barrier /\ \E t \in DOMAIN pend : Effect(t)
Spec == Init /\ [][Next]_vars
=============================================================================
