---------------------------- MODULE DesignUsage ----------------------------
(***************************************************************************)
(* How usage locks work: a shared pointer that's handed out, whose deleter  *)
(* counts and wakes up who drops.  mu guards the pointer and the count, and  *)
(* another lock keeps arming and dropping apart.                            *)
(*                                                                         *)
(* With Counts = FALSE there's only a note of whether the pointer's gone,   *)
(* as it was originally (commit 8d6ccf4): dropping didn't wait for users of *)
(* pointers that had been replaced.                                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Users, Owners, Rounds, Counts
Threads == Users \union Owners
Nobody == 0

VARIABLES ptr,          \* What the lock holds: a pointer, or 0.
          holders,      \* Of each pointer made.
          in_use, done,
          mu, big,      \* Who holds the locks.
          pc, mine, rounds
vars == <<ptr, holders, in_use, done, mu, big, pc, mine, rounds>>
Lock == 0               \* The usage lock itself, as a holder.

Init ==
    /\ ptr = 0 /\ holders = <<>> /\ in_use = 0 /\ done = TRUE
    /\ mu = Nobody /\ big = Nobody
    /\ pc = [t \in Threads |-> "idle"]
    /\ mine = [t \in Threads |-> 0]
    /\ rounds = [t \in Threads |-> 0]

Go(t, x) == pc' = [pc EXCEPT ![t] = x]
\* Gives up a reference to p: the last one has the deleter called.
Last(p, h) == p # 0 /\ holders[p] = {h}

\* Users.
Get(t) ==
    /\ t \in Users /\ pc[t] = "idle" /\ mu = Nobody /\ rounds[t] < Rounds
    /\ rounds' = [rounds EXCEPT ![t] = @ + 1]
    /\ mine' = [mine EXCEPT ![t] = ptr]
    /\ IF ptr = 0 THEN UNCHANGED <<holders, pc>>
       ELSE /\ holders' = [holders EXCEPT ![ptr] = @ \union {t}]
            /\ Go(t, "using")
    /\ UNCHANGED <<ptr, in_use, done, mu, big>>
\* What's next after giving up a reference.
Next1(t) == CASE t \in Users -> "idle"
              [] pc[t] = "arm release" -> "armed"
              [] pc[t] = "drop release" -> "drop wait"
Deleter == [x \in {"idle", "armed", "drop wait"} |->
              CASE x = "idle" -> "delete" [] x = "armed" -> "arm delete"
                [] OTHER -> "drop delete"]
Release(t) ==
    /\ pc[t] \in {"using", "arm release", "drop release"}
    /\ LET p == mine[t]
       IN IF Last(p, t) THEN /\ holders' = [holders EXCEPT ![p] = {}]
                             /\ Go(t, Deleter[Next1(t)])
          ELSE /\ holders' = IF p = 0 THEN holders ELSE [holders EXCEPT ![p] = @ \ {t}]
               /\ Go(t, Next1(t))
    /\ mine' = [mine EXCEPT ![t] = 0]
    /\ UNCHANGED <<ptr, in_use, done, mu, big, rounds>>
Deleting(t) == \E x \in DOMAIN Deleter : pc[t] = Deleter[x]
Delete(t) ==
    /\ Deleting(t) /\ mu = Nobody
    /\ in_use' = in_use - 1
    /\ done' = TRUE
    /\ Go(t, CHOOSE x \in DOMAIN Deleter : pc[t] = Deleter[x])
    /\ UNCHANGED <<ptr, holders, mu, big, mine, rounds>>

\* Owners arm and drop.
Begin(t, what) ==
    /\ t \in Owners /\ pc[t] = "idle" /\ big = Nobody /\ rounds[t] < Rounds
    /\ big' = t
    /\ rounds' = [rounds EXCEPT ![t] = @ + 1]
    /\ Go(t, what)
    /\ UNCHANGED <<ptr, holders, in_use, done, mu, mine>>
ArmCount(t) ==
    /\ pc[t] = "arm" /\ mu = Nobody
    /\ in_use' = in_use + 1
    /\ Go(t, "arm swap")
    /\ UNCHANGED <<ptr, holders, done, mu, big, mine, rounds>>
ArmSwap(t) ==
    /\ pc[t] = "arm swap" /\ mu = Nobody
    /\ ptr' = Cardinality(DOMAIN holders) + 1
    /\ mine' = [mine EXCEPT ![t] = ptr]
    /\ holders' = [p \in 1..ptr' |-> IF p = ptr' THEN {Lock}
                                     ELSE IF p = ptr THEN (holders[p] \ {Lock}) \union {t}
                                     ELSE holders[p]]
    /\ Go(t, "arm release")
    /\ UNCHANGED <<in_use, done, mu, big, rounds>>
Armed(t) ==
    /\ pc[t] = "armed"
    /\ done' = FALSE
    /\ big' = Nobody
    /\ Go(t, "idle")
    /\ UNCHANGED <<ptr, holders, in_use, mu, mine, rounds>>
DropSwap(t) ==
    /\ pc[t] = "drop" /\ mu = Nobody
    /\ mine' = [mine EXCEPT ![t] = ptr]
    /\ ptr' = 0
    /\ holders' = IF ptr = 0 THEN holders
                  ELSE [holders EXCEPT ![ptr] = (@ \ {Lock}) \union {t}]
    /\ Go(t, "drop release")
    /\ UNCHANGED <<in_use, done, mu, big, rounds>>
DropWait(t) ==
    /\ pc[t] = "drop wait" /\ mu = Nobody
    /\ IF Counts THEN in_use = 0 ELSE done
    /\ Go(t, "dropped")
    /\ UNCHANGED <<ptr, holders, in_use, done, mu, big, mine, rounds>>
Dropped(t) ==
    /\ pc[t] = "dropped"
    /\ big' = Nobody
    /\ Go(t, "idle")
    /\ UNCHANGED <<ptr, holders, in_use, done, mu, mine, rounds>>

Step(t) == \/ Get(t) \/ Release(t) \/ Delete(t) \/ Begin(t, "arm") \/ Begin(t, "drop")
           \/ ArmCount(t) \/ ArmSwap(t) \/ Armed(t) \/ DropSwap(t) \/ DropWait(t) \/ Dropped(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))

---------------------------------------------------------------------------
\* When dropping is over, nobody has a reference.
NoneLeft == (\E t \in Owners : pc[t] = "dropped") => \A p \in DOMAIN holders : holders[p] = {}
\* The count is that of pointers that are alive, or are being made or deleted.
CountRight ==
    Counts => in_use = Cardinality({p \in DOMAIN holders : holders[p] # {}})
                       + Cardinality({t \in Threads : pc[t] = "arm swap"})
                       + Cardinality({t \in Threads : Deleting(t)})
AllEnd == <>[](\A t \in Threads : pc[t] = "idle")
=============================================================================
