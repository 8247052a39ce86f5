--------------------------- MODULE DesignContext ---------------------------
(***************************************************************************)
(* How contexts work: each knows its children, guarded by a lock of its     *)
(* own.  Cancelling goes down the tree, the locks of all contexts on the way *)
(* being held, and ends by setting the flag; children are told when they    *)
(* are added; and who is destroyed cancels itself, leaves its parent, and   *)
(* waits until its own children are gone.                                   *)
(*                                                                         *)
(* Threads follow programs of new, cancel and destroy.  With Locked = FALSE *)
(* parents are notified after their lock was released, as it was originally *)
(* (commit 75cc87a): they could be gone.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Locked
\* Trees: 1 is the root, 3 is below 2, 4 below 3; 5 is shielded, below 2.
Contexts == 1..5
Parent == <<0, 1, 2, 3, 2>>
Shielded == {5}
Threads == 1..3
\* The third thread is started by the second one.
Program ==
    <<<<<<"cancel", 1>>>>,
      <<<<"new", 2>>, <<"new", 3>>, <<"start", 3>>, <<"new", 5>>, <<"cancel", 2>>,
        <<"destroy", 5>>, <<"destroy", 2>>>>,
      <<<<"new", 4>>, <<"destroy", 4>>, <<"destroy", 3>>>>>>

VARIABLES life,         \* Of contexts: "no", "live", "dying", "dead".
          kids, lock, flag,
          notified,     \* Has it been told to look at its children again?
          at,           \* Where in their programs threads are, and
          pc,           \* in what they do.
          stack,        \* Contexts they're cancelling, with children to go.
          waits,        \* Who's waiting to be notified.
          cancels,      \* Whose cancellation is over.
          bad           \* A context was used that's gone.
vars == <<life, kids, lock, flag, notified, at, pc, stack, waits, cancels, bad>>

Init ==
    /\ life = [c \in Contexts |-> IF c = 1 THEN "live" ELSE "no"]
    /\ kids = [c \in Contexts |-> {}]
    /\ lock = [c \in Contexts |-> 0]
    /\ flag = [c \in Contexts |-> FALSE]
    /\ notified = [c \in Contexts |-> FALSE]
    /\ at = [t \in Threads |-> IF t = 3 THEN 0 ELSE 1]
    /\ pc = [t \in Threads |-> "begin"]
    /\ stack = [t \in Threads |-> <<>>]
    /\ waits = {}
    /\ cancels = {}
    /\ bad = FALSE

Op(t) == Program[t][at[t]]
Arg(t) == Op(t)[2]
Runs(t) == at[t] \in 1..Len(Program[t])
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
Done(t) == at' = [at EXCEPT ![t] = @ + 1] /\ Go(t, "begin")
Use(c) == bad' = (bad \/ life[c] = "dead")
\* Starts cancelling c, and goes on with x when that's over.
Cancelling(t, c, x) ==
    /\ stack' = [stack EXCEPT ![t] = Append(@, [c |-> c, todo |-> {}, in |-> FALSE])]
    /\ Go(t, x)

New(t) ==
    /\ Runs(t) /\ Op(t)[1] = "new" /\ pc[t] = "begin"
    /\ IF Arg(t) \in Shielded
       THEN /\ life' = [life EXCEPT ![Arg(t)] = "live"]
            /\ Done(t)
            /\ UNCHANGED <<kids, lock, stack, bad>>
       ELSE LET p == Parent[Arg(t)]
            IN /\ lock[p] = 0
               /\ Use(p)
               /\ life' = [life EXCEPT ![Arg(t)] = "live"]
               /\ kids' = [kids EXCEPT ![p] = @ \union {Arg(t)}]
               /\ lock' = [lock EXCEPT ![p] = t]
               /\ IF flag[p] THEN Cancelling(t, Arg(t), "added") /\ UNCHANGED at
                  ELSE Go(t, "added") /\ UNCHANGED <<at, stack>>
    /\ UNCHANGED <<flag, notified, waits, cancels>>
Added(t) ==
    /\ pc[t] = "added" /\ stack[t] = <<>>
    /\ lock' = [lock EXCEPT ![Parent[Arg(t)]] = 0]
    /\ Done(t)
    /\ UNCHANGED <<life, kids, flag, notified, stack, waits, cancels, bad>>
Start(t) ==
    /\ Runs(t) /\ Op(t)[1] = "start"
    /\ at' = [at EXCEPT ![t] = @ + 1, ![Arg(t)] = 1]
    /\ UNCHANGED <<life, kids, lock, flag, notified, pc, stack, waits, cancels, bad>>
Cancel(t) ==
    /\ Runs(t) /\ Op(t)[1] = "cancel" /\ pc[t] = "begin"
    /\ Cancelling(t, Arg(t), "cancelled")
    /\ UNCHANGED <<life, kids, lock, flag, notified, at, waits, cancels, bad>>
Cancelled(t) ==
    /\ pc[t] = "cancelled" /\ stack[t] = <<>>
    /\ cancels' = cancels \union {Arg(t)}
    /\ Done(t)
    /\ UNCHANGED <<life, kids, lock, flag, notified, stack, waits, bad>>

\* The recursion.
Top(t) == stack[t][Len(stack[t])]
Below(t) == SubSeq(stack[t], 1, Len(stack[t]) - 1)
Enter(t) ==
    /\ stack[t] # <<>> /\ ~Top(t).in /\ lock[Top(t).c] = 0
    /\ Use(Top(t).c)
    /\ lock' = [lock EXCEPT ![Top(t).c] = t]
    /\ stack' = [stack EXCEPT ![t] =
                   Append(Below(t), [c |-> Top(t).c, todo |-> kids[Top(t).c], in |-> TRUE])]
    /\ UNCHANGED <<life, kids, flag, notified, at, pc, waits, cancels>>
Down(t) ==
    /\ stack[t] # <<>> /\ Top(t).in
    /\ \E d \in Top(t).todo :
         stack' = [stack EXCEPT ![t] =
                     Append(Append(Below(t), [Top(t) EXCEPT !.todo = @ \ {d}]),
                            [c |-> d, todo |-> {}, in |-> FALSE])]
    /\ UNCHANGED <<life, kids, lock, flag, notified, at, pc, waits, cancels, bad>>
Leave(t) ==
    /\ stack[t] # <<>> /\ Top(t).in /\ Top(t).todo = {}
    /\ Use(Top(t).c)
    /\ flag' = [flag EXCEPT ![Top(t).c] = TRUE]
    /\ lock' = [lock EXCEPT ![Top(t).c] = 0]
    /\ stack' = [stack EXCEPT ![t] = Below(t)]
    /\ UNCHANGED <<life, kids, notified, at, pc, waits, cancels>>

Destroy(t) ==
    /\ Runs(t) /\ Op(t)[1] = "destroy" /\ pc[t] = "begin"
    /\ life' = [life EXCEPT ![Arg(t)] = "dying"]
    /\ Cancelling(t, Arg(t), "remove")
    /\ UNCHANGED <<kids, lock, flag, notified, at, waits, cancels, bad>>
Remove(t) ==
    /\ pc[t] = "remove" /\ stack[t] = <<>>
    /\ LET p == Parent[Arg(t)]
       IN IF Arg(t) \in Shielded THEN Go(t, "look") /\ UNCHANGED <<kids, notified, bad>>
          ELSE /\ lock[p] = 0
               /\ Use(p)
               /\ kids' = [kids EXCEPT ![p] = @ \ {Arg(t)}]
               /\ notified' = IF Locked THEN [notified EXCEPT ![p] = TRUE] ELSE notified
               /\ Go(t, IF Locked THEN "look" ELSE "notify")
    /\ UNCHANGED <<life, lock, flag, at, stack, waits, cancels>>
Notify(t) ==
    /\ pc[t] = "notify"
    /\ LET p == Parent[Arg(t)]
       IN Use(p) /\ notified' = [notified EXCEPT ![p] = TRUE]
    /\ Go(t, "look")
    /\ UNCHANGED <<life, kids, lock, flag, at, stack, waits, cancels>>
\* The condition variable: looks under the lock, and then when notified.
Look(t) ==
    /\ pc[t] = "look" /\ lock[Arg(t)] = 0
    /\ t \in waits => notified[Arg(t)]
    /\ notified' = [notified EXCEPT ![Arg(t)] = FALSE]
    /\ IF kids[Arg(t)] = {}
       THEN /\ life' = [life EXCEPT ![Arg(t)] = "dead"]
            /\ waits' = waits \ {t}
            /\ Done(t)
       ELSE waits' = waits \union {t} /\ UNCHANGED <<life, at, pc>>
    /\ UNCHANGED <<kids, lock, flag, stack, cancels, bad>>

Step(t) == \/ New(t) \/ Added(t) \/ Start(t) \/ Cancel(t) \/ Cancelled(t) \/ Enter(t)
           \/ Down(t) \/ Leave(t) \/ Destroy(t) \/ Remove(t) \/ Notify(t) \/ Look(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

---------------------------------------------------------------------------
Safe == ~bad
RECURSIVE Under(_, _)
Under(d, c) == d = c \/ (d \notin Shielded /\ Parent[d] # 0 /\ Under(Parent[d], c))
\* Once cancelling is over, all below that are there are cancelled, those made
\* later included.
AllCancelled ==
    \A c \in cancels, d \in Contexts :
      /\ Under(d, c) /\ life[d] = "live"
      /\ ~\E t \in Threads : pc[t] = "added" /\ Arg(t) = d
      => flag[d]
\* Shielded ones are cancelled by themselves only.
Shields == flag[5] => life[5] \in {"dying", "dead"}
\* No parent is gone before its children.
Ordered == \A d \in Contexts \ Shielded :
    d # 1 /\ life[d] \in {"live", "dying"} /\ (\E c \in Contexts : d \in kids[c]) =>
      life[Parent[d]] # "dead"
AllEnd == <>(\A t \in Threads : at[t] > Len(Program[t]))
=============================================================================
