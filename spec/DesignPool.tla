----------------------------- MODULE DesignPool -----------------------------
(***************************************************************************)
(* How thread pools work: functions that are pending and slots of workers  *)
(* that wait, in two queues.  Callers and workers select what may have     *)
(* room or something for them, and then look again under the pool's lock,   *)
(* first for a counterpart, then for room.                                  *)
(*                                                                         *)
(* With Decide = "select", what select reported is believed, as it was      *)
(* originally (commit 210fda5): functions were stranded, or overtaken.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Workers, Callers, Calls, Size, Decide

VARIABLES pending, slots,
          handed,       \* By worker: function put into its slot, or 0.
          wpc, wsaw,    \* Workers.
          cpc, csaw,    \* Callers.
          next,         \* Of each caller: how many functions it gave.
          accepted, started
vars == <<pending, slots, handed, wpc, wsaw, cpc, csaw, next, accepted, started>>

Fn(c, n) == c * 100 + n
Init ==
    /\ pending = <<>> /\ slots = <<>>
    /\ handed = [w \in Workers |-> 0]
    /\ wpc = [w \in Workers |-> "ask"] /\ wsaw = [w \in Workers |-> {}]
    /\ cpc = [c \in Callers |-> "give"] /\ csaw = [c \in Callers |-> {}]
    /\ next = [c \in Callers |-> 1]
    /\ accepted = <<>> /\ started = <<>>

\* What select reports: all that's so at some moment.
Saw(a, b) == (IF a THEN {"other"} ELSE {}) \union (IF b THEN {"room"} ELSE {})
Room(q, n) == Len(q) < n

WSelect(w) ==
    /\ wpc[w] = "ask"
    /\ wsaw' = [wsaw EXCEPT ![w] = Saw(pending # <<>>, Room(slots, Cardinality(Workers)))]
    /\ wsaw'[w] # {}
    /\ wpc' = [wpc EXCEPT ![w] = "decide"]
    /\ UNCHANGED <<pending, slots, handed, cpc, csaw, next, accepted, started>>
WDecide(w) ==
    /\ wpc[w] = "decide"
    /\ LET other == IF Decide = "lock" THEN pending # <<>> ELSE "other" \in wsaw[w]
           room == IF Decide = "lock" THEN Room(slots, Cardinality(Workers))
                   ELSE "room" \in wsaw[w]
       IN CASE other ->
                 IF pending = <<>>
                 THEN /\ wpc' = [wpc EXCEPT ![w] = "ask"]
                      /\ UNCHANGED <<pending, slots, handed>>
                 ELSE /\ handed' = [handed EXCEPT ![w] = Head(pending)]
                      /\ pending' = Tail(pending)
                      /\ wpc' = [wpc EXCEPT ![w] = "wait"]
                      /\ UNCHANGED slots
            [] ~other /\ room /\ Room(slots, Cardinality(Workers)) ->
                 /\ slots' = Append(slots, w)
                 /\ wpc' = [wpc EXCEPT ![w] = "wait"]
                 /\ UNCHANGED <<pending, handed>>
            [] OTHER -> /\ wpc' = [wpc EXCEPT ![w] = "ask"]
                        /\ UNCHANGED <<pending, slots, handed>>
    /\ UNCHANGED <<wsaw, cpc, csaw, next, accepted, started>>
WStart(w) ==
    /\ wpc[w] = "wait" /\ handed[w] # 0
    /\ started' = Append(started, handed[w])
    /\ handed' = [handed EXCEPT ![w] = 0]
    /\ wpc' = [wpc EXCEPT ![w] = "run"]
    /\ UNCHANGED <<pending, slots, wsaw, cpc, csaw, next, accepted>>
WFinish(w) ==
    /\ wpc[w] = "run"
    /\ wpc' = [wpc EXCEPT ![w] = "ask"]
    /\ UNCHANGED <<pending, slots, handed, wsaw, cpc, csaw, next, accepted, started>>

CSelect(c) ==
    /\ cpc[c] = "give" /\ next[c] <= Calls
    /\ csaw' = [csaw EXCEPT ![c] = Saw(slots # <<>>, Room(pending, Size))]
    /\ csaw'[c] # {}
    /\ cpc' = [cpc EXCEPT ![c] = "decide"]
    /\ UNCHANGED <<pending, slots, handed, wpc, wsaw, next, accepted, started>>
CDecide(c) ==
    /\ cpc[c] = "decide"
    /\ cpc' = [cpc EXCEPT ![c] = "give"]
    /\ LET f == Fn(c, next[c])
           other == IF Decide = "lock" THEN slots # <<>> ELSE "other" \in csaw[c]
           room == IF Decide = "lock" THEN Room(pending, Size) ELSE "room" \in csaw[c]
           given == next' = [next EXCEPT ![c] = @ + 1] /\ accepted' = Append(accepted, f)
       IN CASE other /\ slots # <<>> ->
                 /\ handed' = [handed EXCEPT ![Head(slots)] = f]
                 /\ slots' = Tail(slots)
                 /\ given
                 /\ UNCHANGED pending
            [] ~other /\ room /\ Room(pending, Size) ->
                 /\ pending' = Append(pending, f)
                 /\ given
                 /\ UNCHANGED <<slots, handed>>
            [] OTHER -> UNCHANGED <<pending, slots, handed, next, accepted>>
    /\ UNCHANGED <<wpc, wsaw, csaw, started>>

Next == \/ \E w \in Workers : WSelect(w) \/ WDecide(w) \/ WStart(w) \/ WFinish(w)
        \/ \E c \in Callers : CSelect(c) \/ CDecide(c)
Fair == /\ \A w \in Workers : /\ SF_vars(WSelect(w)) /\ WF_vars(WDecide(w))
                              /\ WF_vars(WStart(w)) /\ WF_vars(WFinish(w))
        /\ \A c \in Callers : SF_vars(CSelect(c)) /\ WF_vars(CDecide(c))
Spec == Init /\ [][Next]_vars /\ Fair

---------------------------------------------------------------------------
Range(x) == {x[i] : i \in 1..Len(x)}
Given == UNION {{Fn(c, n) : n \in 1..(next[c] - 1)} : c \in Callers}
\* Handed over, in the order given: the functions of all workers.
InHand == {handed[w] : w \in Workers} \ {0}
\* Each is in exactly one place.
ExactlyOnce ==
    /\ Given = Range(started) \union InHand \union Range(pending)
    /\ Len(accepted) = Len(started) + Cardinality(InHand) + Len(pending)
\* No function is taken before one accepted earlier.
InOrder ==
    LET taken == Range(started) \union InHand
        at(f) == CHOOSE i \in 1..Len(accepted) : accepted[i] = f
    IN \A f \in taken, g \in Range(pending) : at(f) < at(g)
\* Nobody waits in a slot while there's something to do.
NoneStranded == pending # <<>> => slots = <<>>
AllStart == <>(Len(started) = Calls * Cardinality(Callers))
=============================================================================
