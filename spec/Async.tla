------------------------------- MODULE Async -------------------------------
(***************************************************************************)
(* The synchronization objects of the library and the contexts, as their   *)
(* users see them: the state of a program that uses them, what each        *)
(* operation does to it and when it can, and when operations wait.         *)
(*                                                                         *)
(* Steps are given as functions from a state to the set of states it can   *)
(* lead to.  Operations take effect atomically at some time between their  *)
(* call and return, but for selects of several things, whose parts take    *)
(* effect one after the other, and cancellation, which reaches contexts    *)
(* one by one.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == 2000000                 \* No deadline.
Far == 1500000                  \* One in the far future, or a timeout until then.
After(now, timeout) == IF timeout = Far THEN Far ELSE now + timeout
Least(a, b) == IF a < b THEN a ELSE b

\* queues, sems: capacities.
\* futures: what's done to their results.  locks: usage locks.
Initial(mutexes, flags, queues, sems, futures, locks) ==
    [now |-> 0,
     mtx |-> [m \in 1..mutexes |-> FALSE],      \* Locked?
     flg |-> [f \in 1..flags |-> FALSE],
     cap |-> queues, que |-> [q \in 1..Len(queues) |-> <<>>],
     scap |-> sems, sem |-> [q \in 1..Len(sems) |-> 0],
     \* A promise is open until it's set or destroyed; its future delivers
     \* what it was set to once.
     fut |-> [f \in 1..Len(futures) |-> [st |-> "open", open |-> TRUE, val |-> 0,
                                         cls |-> "ok", mods |-> futures[f]]],
     \* A usage lock hands out references to what it's armed with, until
     \* that is dropped.
     ulk |-> [u \in 1..locks |-> [ptr |-> 0, refs |-> {}]],
     ctx |-> [c \in {0} |-> [parent |-> -1, cancelled |-> FALSE,
                             deadline |-> None, live |-> TRUE,
                             data |-> <<0, 0, 0>>]],
     stack |-> [t \in {0} |-> <<0>>],           \* Of contexts, by thread.
     ended |-> {}]

Current(s, t) == s.stack[t][Len(s.stack[t])]
Cancelled(s, t) == s.ctx[Current(s, t)].cancelled
Deadline(s, t) == s.ctx[Current(s, t)].deadline

---------------------------------------------------------------------------
(* Contexts.                                                               *)

\* A context knows its descendants through children that aren't shielded:
\* these have no parent here.
Children(s, c) == {d \in DOMAIN s.ctx : s.ctx[d].parent = c /\ s.ctx[d].live}
RECURSIVE Descendants(_, _)
Descendants(s, c) ==
    {c} \union UNION {Descendants(s, d) : d \in Children(s, c)}
NotYetCancelled(s, c) ==
    {d \in Descendants(s, c) : ~s.ctx[d].cancelled}
CancelSome(s, c) ==
    {[s EXCEPT !.ctx[d].cancelled = TRUE] : d \in NotYetCancelled(s, c)}

\* A new context has its parent's deadline and data as they are now.
NewContext(s, c, parent, shield, timeout) ==
    [s EXCEPT !.ctx =
        [x \in DOMAIN s.ctx \union {c} |->
           IF x = c
           THEN [parent |-> IF shield THEN -1 ELSE parent,
                 cancelled |-> ~shield /\ s.ctx[parent].cancelled,
                 deadline |-> Least(s.ctx[parent].deadline,
                                    IF timeout >= 0 THEN After(s.now, timeout) ELSE None),
                 live |-> TRUE,
                 data |-> s.ctx[parent].data]
           ELSE s.ctx[x]]]
Parent(s, t, o) == IF o.parent = -1 THEN Current(s, t) ELSE o.parent
Push(s, t, c) == [s EXCEPT !.stack[t] = Append(@, c)]
\* A context made from what was transported of another.
Load(s, c, from) ==
    [s EXCEPT !.ctx[c].deadline = Least(@, from.deadline),
              !.ctx[c].data = from.data,
              !.ctx[c].cancelled = @ \/ from.cancelled]

---------------------------------------------------------------------------
(* What can be waited for: items [k, o, v].  start: when waiting started.   *)

Ready(s, i, start) ==
    CASE i.k \in {"lock", "can_lock"} -> ~s.mtx[i.o]
      [] i.k = "wait" -> s.flg[i.o]
      [] i.k \in {"get", "can_get"} -> s.que[i.o] # <<>>
      [] i.k \in {"put", "can_put"} -> Len(s.que[i.o]) < s.cap[i.o]
      [] i.k = "sget" -> s.sem[i.o] > 0
      [] i.k = "sput" -> s.sem[i.o] < s.scap[i.o]
      [] i.k \in {"fget", "can_fget"} -> s.fut[i.o].st = "ready"
      [] i.k = "time" -> s.now >= start + i.v
      [] i.k = "poll" -> s.now >= start + i.v
      [] i.k = "wcancel" -> s.ctx[i.o].cancelled
      [] i.k = "wdeadline" -> s.ctx[i.o].deadline <= s.now

Outcome(s, r, v) == [s |-> s, r |-> r, v |-> v]

\* Awaitables and futures can be given functions through which their results
\* go: for values (add, err, one), for exceptions (catch...), or around what
\* produces them (wrap, guard).
Mod(x, m) ==
    LET ok(v) == [x EXCEPT !.r = "ok", !.v = v]
    IN CASE m = "add" -> IF x.r = "ok" THEN ok(x.v + 1000) ELSE x
         [] m = "err" -> IF x.r = "ok" THEN [x EXCEPT !.r = "out_of_range", !.v = 0] ELSE x
         [] m = "one" -> IF x.r = "ok" THEN ok(1) ELSE x
         [] m = "catch" -> IF x.r = "not_found" THEN ok(7) ELSE x
         [] m = "catch_aborted" -> IF x.r = "out_of_range" THEN ok(8) ELSE x
         [] m = "catch_broken" -> IF x.r = "invalid_state" THEN ok(9) ELSE x
         [] m = "wrap" -> IF x.r = "ok" THEN ok(x.v + 500) ELSE x
         [] m = "guard" -> IF x.r = "out_of_range" THEN ok(10) ELSE x
RECURSIVE Mods(_, _)
Mods(x, ms) == IF ms = <<>> THEN x ELSE Mods(Mod(x, Head(ms)), Tail(ms))

\* What waiting for it does, and can result in: [s, r, v].
TakeFuture(s, f) ==
    LET x == s.fut[f]
    IN Mods(Outcome([s EXCEPT !.fut[f].st = "taken"], x.cls,
                    IF x.cls = "ok" THEN x.val ELSE 0), x.mods)
TakeItem(s, i) ==
    CASE i.k = "lock" -> Outcome([s EXCEPT !.mtx[i.o] = TRUE], "ok", 0)
      [] i.k = "get" ->
           Outcome([s EXCEPT !.que[i.o] = Tail(@)], "ok", Head(s.que[i.o]))
      [] i.k = "put" ->
           Outcome([s EXCEPT !.que[i.o] = Append(@, i.v)], "ok", 0)
      [] i.k = "sget" -> Outcome([s EXCEPT !.sem[i.o] = @ - 1], "ok", 0)
      [] i.k = "sput" -> Outcome([s EXCEPT !.sem[i.o] = @ + 1], "ok", 0)
      [] i.k = "fget" -> TakeFuture(s, i.o)
      [] i.k = "wcancel" -> Outcome(s, "cancelled", 0)
      [] i.k = "wdeadline" -> Outcome(s, "deadline_exceeded", 0)
      [] OTHER -> Outcome(s, "ok", 0)
\* Polling: whoever polls for a flag here may give up when it's not set.
Take(s, i) ==
    IF i.k = "poll"
    THEN Mods(Outcome(s, IF s.flg[i.o] THEN "ok" ELSE "not_found", 0), i.m)
    ELSE Mods(TakeItem(s, i), i.m)

\* A select of thread t that has waited since start: it can go on.
CanGoOn(s, t, items, start) ==
    \/ Cancelled(s, t)
    \/ Deadline(s, t) <= s.now
    \/ \E k \in 1..Len(items) : items[k].k # "poll" /\ Ready(s, items[k], start)
\* The earliest time at which it'll go on by itself.
WakeTime(s, t, items, start) ==
    LET timer(k) == {x \in 1..Len(items) : items[x].k = k}
        all == {start + items[x].v : x \in timer("time")}
               \union {s.ctx[items[x].o].deadline : x \in timer("wdeadline")}
               \* Polling goes on as long as it takes, but not for ever.
               \union (IF timer("poll") = {} THEN {} ELSE {Far - 1})
               \union {Deadline(s, t)}
    IN CHOOSE x \in all : \A y \in all : x <= y

---------------------------------------------------------------------------
(* Operations that don't wait: the states and results [s, r, v] they can   *)
(* have.                                                                   *)

Bool(b) == IF b THEN 1 ELSE 0
PromiseSet(s, f, val, cls) ==
    IF s.fut[f].open
    THEN Outcome([s EXCEPT !.fut[f] = [@ EXCEPT !.st = "ready", !.open = FALSE,
                                                !.val = val, !.cls = cls]], "ok", 0)
    ELSE Outcome(s, "invalid_state", 0)

Do(s, t, o) ==
    CASE o.op = "unlock" -> Outcome([s EXCEPT !.mtx[o.o] = FALSE], "ok", 0)
      [] o.op = "trylock" ->
           IF s.mtx[o.o] THEN Outcome(s, "ok", 0)
           ELSE Outcome([s EXCEPT !.mtx[o.o] = TRUE], "ok", 1)
      [] o.op = "set" -> Outcome([s EXCEPT !.flg[o.o] = TRUE], "ok", 0)
      [] o.op = "reset" -> Outcome([s EXCEPT !.flg[o.o] = FALSE], "ok", 0)
      [] o.op = "isset" -> Outcome(s, "ok", Bool(s.flg[o.o]))
      [] o.op = "tryget" ->
           IF s.que[o.o] = <<>> THEN Outcome(s, "try_again", 0)
           ELSE Outcome([s EXCEPT !.que[o.o] = Tail(@)], "ok", Head(s.que[o.o]))
      [] o.op = "tryput" ->
           IF Len(s.que[o.o]) >= s.cap[o.o] THEN Outcome(s, "try_again", 0)
           ELSE Outcome([s EXCEPT !.que[o.o] = Append(@, o.val)], "ok", 0)
      [] o.op = "size" -> Outcome(s, "ok", Len(s.que[o.o]))
      [] o.op = "empty" -> Outcome(s, "ok", Bool(s.que[o.o] = <<>>))
      [] o.op = "full" -> Outcome(s, "ok", Bool(Len(s.que[o.o]) = s.cap[o.o]))
      [] o.op = "stryget" ->
           IF s.sem[o.o] = 0 THEN Outcome(s, "try_again", 0)
           ELSE Outcome([s EXCEPT !.sem[o.o] = @ - 1], "ok", 0)
      [] o.op = "stryput" ->
           IF s.sem[o.o] >= s.scap[o.o] THEN Outcome(s, "try_again", 0)
           ELSE Outcome([s EXCEPT !.sem[o.o] = @ + 1], "ok", 0)
      [] o.op = "ssize" -> Outcome(s, "ok", s.sem[o.o])
      [] o.op = "sempty" -> Outcome(s, "ok", Bool(s.sem[o.o] = 0))
      [] o.op = "sfull" -> Outcome(s, "ok", Bool(s.sem[o.o] = s.scap[o.o]))
      [] o.op = "fset" -> PromiseSet(s, o.o, o.val, "ok")
      [] o.op = "fexc" -> PromiseSet(s, o.o, 0, "not_found")
      \* Making the value fails.
      [] o.op = "fthrow" ->
           Outcome(s, IF s.fut[o.o].open THEN "out_of_range" ELSE "invalid_state", 0)
      [] o.op = "fdrop" ->
           IF s.fut[o.o].open
           THEN PromiseSet(s, o.o, 0, "invalid_state")
           ELSE Outcome(s, "ok", 0)
      [] o.op = "ftry" ->
           IF s.fut[o.o].st # "ready" THEN Outcome(s, "try_again", 0)
           ELSE TakeFuture(s, o.o)
      [] o.op = "forget" -> Outcome(s, "ok", 0)
      [] o.op = "uget" ->
           IF s.ulk[o.o].ptr = 0 THEN Outcome(s, "unavailable", 0)
           ELSE Outcome([s EXCEPT !.ulk[o.o].refs = @ \union {o.ref}], "ok",
                        s.ulk[o.o].ptr)
      [] o.op = "urel" ->
           Outcome([s EXCEPT !.ulk[o.o].refs = @ \ {o.ref}], "ok", 0)
      [] o.op \in {"uarm", "udrop"} ->
           Outcome([s EXCEPT !.ulk[o.o].ptr = o.val], "ok", 0)
      [] o.op \in {"push", "child"} ->
           LET st == NewContext(s, o.ctx, Parent(s, t, o), o.shield = 1, o.timeout)
           IN Outcome(IF o.op = "push" THEN Push(st, t, o.ctx) ELSE st, "ok", 0)
      [] o.op = "spawn" ->
           Outcome(NewContext(s, o.ctx, IF o.daemon = 1 THEN 0 ELSE Current(s, t),
                              FALSE, -1), "ok", 0)
      [] o.op = "timeout" ->
           Outcome([s EXCEPT !.ctx[o.ctx].deadline = Least(@, After(s.now, o.val))],
                   "ok", 0)
      [] o.op = "load" -> Outcome(Load(s, o.ctx, s.ctx[o.from]), "ok", 0)
      [] o.op = "dset" ->
           Outcome([s EXCEPT !.ctx[o.ctx].data =
                      [d \in 1..3 |-> IF o.vals[d] = 0 THEN @[d] ELSE o.vals[d]]],
                   "ok", 0)
      [] o.op = "dreset" ->
           Outcome([s EXCEPT !.ctx[o.ctx].data =
                      [d \in 1..3 |-> IF o.vals[d] = 0 THEN @[d] ELSE 0]], "ok", 0)
      [] o.op = "dget" -> Outcome(s, "ok", s.ctx[o.ctx].data[o.cls])
      [] o.op = "ctxcancelled" -> Outcome(s, "ok", Bool(s.ctx[o.ctx].cancelled))
      [] o.op = "iscancelled" -> Outcome(s, "ok", Bool(Cancelled(s, t)))
      [] o.op = "left" ->
           Outcome(s, "ok", IF Deadline(s, t) >= Far THEN Deadline(s, t)
                            ELSE Deadline(s, t) - s.now)
      [] OTHER -> Outcome(s, "ok", 0)
=============================================================================
