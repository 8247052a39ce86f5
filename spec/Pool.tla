-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* A thread pool: functions that are run by it wait until there is a       *)
(* worker for them; there's room for some of them to wait, and whoever     *)
(* wants more to be run waits for that room.  When it's destroyed,         *)
(* functions that run are cancelled and waited for, and others dropped.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* size: room for functions to wait in: as many as there are workers if 0,
\* any number if negative.
NewPool(workers, size) ==
    [workers |-> workers,
     room |-> IF size = 0 THEN workers ELSE IF size < 0 THEN 1000000 ELSE size,
     waiting |-> <<>>,        \* Functions that will be run.
     running |-> {},
     over |-> {},             \* Functions that were run.
     refused |-> {},          \* Functions that weren't accepted.
     gone |-> {},             \* Functions that have been destroyed.
     destroying |-> FALSE]

Free(p) == p.workers - Cardinality(p.running)
CanRun(p) == Len(p.waiting) < p.room + Free(p)
Run(p, f) == [p EXCEPT !.waiting = Append(@, f)]
Refuse(p, f) == [p EXCEPT !.refused = @ \union {f}]

\* Functions get workers in the order in which they were accepted, though
\* these may take some time to start with them.
CanStart(p, f) ==
    \E k \in 1..Len(p.waiting) : p.waiting[k] = f /\ k <= Free(p)
Start(p, f) ==
    [p EXCEPT !.waiting = SelectSeq(@, LAMBDA x : x # f),
              !.running = @ \union {f}]
CanFinish(p, f) == f \in p.running
Finish(p, f) ==
    [p EXCEPT !.running = @ \ {f}, !.over = @ \union {f}]

\* Functions are kept until they're over, or won't be run.
CanGo(p, f) ==
    /\ f \notin p.gone
    /\ \/ f \in p.over \union p.refused
       \/ p.destroying /\ \E k \in 1..Len(p.waiting) : p.waiting[k] = f
Go(p, f) ==
    [p EXCEPT !.gone = @ \union {f},
              !.waiting = SelectSeq(@, LAMBDA x : x # f)]
Destroy(p) == [p EXCEPT !.destroying = TRUE]
CanEnd(p) == p.running = {} /\ p.waiting = <<>>

\* No worker is free while functions wait.
Busy(p) == p.waiting # <<>> /\ ~p.destroying => Free(p) = 0
=============================================================================
