---------------------------- MODULE DesignSelect ----------------------------
(***************************************************************************)
(* How select, flags, mutexes and queues work: a select polls what its     *)
(* arguments say is to be waited for, all at once, and then lets each that  *)
(* was reported react, one after the other, which may find that somebody    *)
(* else was faster.  Only if none succeeded it polls again.  Flags are a    *)
(* byte in a pipe, mutexes too; queues have two flags, set under a lock.    *)
(*                                                                         *)
(* What AsyncTrace demands of selects is shown for this algorithm here:     *)
(* what's reported was taken, once, while it was there; what isn't was not  *)
(* there at some time during the call; whoever is told of a cancellation    *)
(* took nothing; and nobody waits for what stays there.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads,      \* Who selects, what, in which order: a function to
          Wants,        \* sequences of "mutex", "flag", "queue".
          Writers,      \* Who does something else.
          Cap,
          Early         \* Whether cancellation is looked at before all else.
WantsDef == <<<<"mutex", "queue">>, <<"queue", "flag">>, <<"flag", "mutex">>>>
Objects == {"mutex", "flag", "queue"}

VARIABLES mutex,        \* Bytes in its pipe.
          flag,         \* Byte in its pipe.
          queue,        \* Contents, and
          can_get,      \* its flag;
          qlock,        \* who's in it.
          cancelled,    \* Byte in the pipe of the context's flag.
          pc, polled, k, took, seen,    \* Of who selects.
          wpc, left                     \* Of the others.
vars == <<mutex, flag, queue, can_get, qlock, cancelled, pc, polled, k, took, seen, wpc, left>>

There(o) == CASE o = "mutex" -> mutex > 0
              [] o = "flag" -> flag
              [] o = "queue" -> queue # <<>>
\* What poll sees.
Readable(o) == CASE o = "mutex" -> mutex > 0
                 [] o = "flag" -> flag
                 [] o = "queue" -> can_get
Nobody == 0

Init ==
    /\ mutex = 1 /\ flag = FALSE /\ queue = <<>> /\ can_get = FALSE /\ qlock = Nobody
    /\ cancelled = FALSE
    /\ pc = [t \in Threads |-> "poll"]
    /\ polled = [t \in Threads |-> {}]
    /\ k = [t \in Threads |-> 0]
    /\ took = [t \in Threads |-> {}]
    /\ seen = [t \in Threads |-> {o \in Objects : ~There(o)}]
    /\ wpc = [w \in Writers |-> "idle"]
    /\ left = [w \in Writers |-> 3]

Look == seen' = [t \in Threads |-> IF pc'[t] \in {"poll", "react", "queue", "update", "cancel"}
                                   THEN seen[t] \union {o \in Objects : ~There(o)'}
                                   ELSE seen[t]]

Poll(t) ==
    /\ pc[t] = "poll"
    /\ LET all == {o \in Objects : \E j \in 1..Len(Wants[t]) : Wants[t][j] = o /\ Readable(o)}
                  \union IF cancelled THEN {"cancel"} ELSE {}
       IN /\ all # {}
          /\ polled' = [polled EXCEPT ![t] = all]
    /\ pc' = [pc EXCEPT ![t] = IF Early THEN "cancel" ELSE "react"]
    /\ k' = [k EXCEPT ![t] = 1]
    /\ took' = [took EXCEPT ![t] = {}]
    /\ UNCHANGED <<mutex, flag, queue, can_get, qlock, cancelled, wpc, left>>

\* The context first.
Cancel(t) ==
    /\ pc[t] = "cancel"
    /\ pc' = [pc EXCEPT ![t] = IF "cancel" \in polled[t] THEN "cancelled"
                               ELSE IF Early THEN "react"
                               ELSE IF took[t] # {} THEN "done" ELSE "poll"]
    /\ UNCHANGED <<mutex, flag, queue, can_get, qlock, cancelled, polled, k, took, wpc, left>>

Took(t, o) == took' = [took EXCEPT ![t] = @ \union {o}]
React(t) ==
    /\ pc[t] = "react"
    /\ IF k[t] > Len(Wants[t])
       THEN /\ pc' = [pc EXCEPT ![t] = IF ~Early THEN "cancel"
                                       ELSE IF took[t] # {} THEN "done" ELSE "poll"]
            /\ UNCHANGED <<mutex, flag, queue, can_get, qlock, polled, k, took>>
       ELSE LET o == Wants[t][k[t]]
                next == k' = [k EXCEPT ![t] = @ + 1] /\ UNCHANGED pc
            IN IF o \notin polled[t]
               THEN next /\ UNCHANGED <<mutex, flag, queue, can_get, qlock, polled, took>>
               ELSE CASE o = "mutex" ->
                           /\ IF mutex > 0 THEN mutex' = mutex - 1 /\ Took(t, o)
                              ELSE UNCHANGED <<mutex, took>>
                           /\ next
                           /\ UNCHANGED <<flag, queue, can_get, qlock, polled>>
                      [] o = "flag" ->
                           /\ IF flag THEN Took(t, o) ELSE UNCHANGED took
                           /\ next
                           /\ UNCHANGED <<mutex, flag, queue, can_get, qlock, polled>>
                      \* Is its flag still set?
                      [] o = "queue" ->
                           /\ IF can_get THEN pc' = [pc EXCEPT ![t] = "queue"] /\ UNCHANGED k
                              ELSE next
                           /\ UNCHANGED <<mutex, flag, queue, can_get, qlock, polled, took>>
    /\ UNCHANGED <<cancelled, wpc, left>>
Queue(t) ==
    /\ pc[t] = "queue"
    /\ qlock = Nobody
    /\ IF queue = <<>>
       THEN /\ pc' = [pc EXCEPT ![t] = "react"]
            /\ k' = [k EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<queue, qlock, took>>
       ELSE /\ queue' = Tail(queue)
            /\ Took(t, "queue")
            /\ qlock' = t
            /\ pc' = [pc EXCEPT ![t] = "update"]
            /\ UNCHANGED k
    /\ UNCHANGED <<mutex, flag, can_get, cancelled, polled, wpc, left>>
Update(t) ==
    /\ pc[t] = "update"
    /\ can_get' = (queue # <<>>)
    /\ qlock' = Nobody
    /\ pc' = [pc EXCEPT ![t] = "react"]
    /\ k' = [k EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<mutex, flag, queue, cancelled, polled, took, wpc, left>>
\* Then it's over, or it unlocks and selects again.
Again(t) ==
    /\ pc[t] = "done"
    /\ mutex' = IF "mutex" \in took[t] THEN mutex + 1 ELSE mutex
    /\ pc' = [pc EXCEPT ![t] = "over"]
    /\ UNCHANGED <<flag, queue, can_get, qlock, cancelled, polled, k, took, wpc, left>>

\* The others set and reset the flag, put, and cancel.
Write(w) ==
    /\ wpc[w] = "idle" /\ left[w] > 0
    /\ left' = [left EXCEPT ![w] = @ - 1]
    /\ \/ flag' = ~flag /\ UNCHANGED <<queue, qlock, cancelled, wpc>>
       \/ cancelled' = TRUE /\ UNCHANGED <<flag, queue, qlock, wpc>>
       \/ /\ qlock = Nobody /\ Len(queue) < Cap
          /\ queue' = Append(queue, left[w]) /\ qlock' = w
          /\ wpc' = [wpc EXCEPT ![w] = "update"]
          /\ UNCHANGED <<flag, cancelled>>
    /\ UNCHANGED <<mutex, can_get, pc, polled, k, took>>
WUpdate(w) ==
    /\ wpc[w] = "update"
    /\ can_get' = (queue # <<>>)
    /\ qlock' = Nobody
    /\ wpc' = [wpc EXCEPT ![w] = "idle"]
    /\ UNCHANGED <<mutex, flag, queue, cancelled, pc, polled, k, took, left>>

Step(t) == Poll(t) \/ Cancel(t) \/ React(t) \/ Queue(t) \/ Update(t) \/ Again(t)
Next == (\E t \in Threads : Step(t) /\ Look) \/ (\E w \in Writers : (Write(w) \/ WUpdate(w)) /\ Look)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t) /\ Look)
             /\ \A w \in Writers : WF_vars(WUpdate(w) /\ Look)

---------------------------------------------------------------------------
Holders == {t \in Threads : "mutex" \in took[t] /\ pc[t] # "over"}
Mutual == Cardinality(Holders) + mutex = 1
\* Told of a cancellation, but has something.
NothingLost == \A t \in Threads : pc[t] = "cancelled" => took[t] = {}
ReportsReal == \A t \in Threads :
    pc[t] = "done" => took[t] # {} /\ \A j \in 1..Len(Wants[t]) : Wants[t][j] \in took[t] \union seen[t]
\* Flags of queues say what's in there, but for a moment.
FlagsRight == qlock = Nobody => can_get = (queue # <<>>)
\* Who waits for something that stays there goes on.
Woken == \A t \in Threads : \A o \in Objects :
    (\E j \in 1..Len(Wants[t]) : Wants[t][j] = o)
    => ~ <>[](There(o) /\ pc[t] \notin {"done", "over", "cancelled"})
Told == \A t \in Threads : cancelled ~> pc[t] \in {"cancelled", "over"}
=============================================================================
