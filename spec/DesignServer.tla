---------------------------- MODULE DesignServer ----------------------------
(***************************************************************************)
(* How a server looks after its connections: an acceptor that takes a      *)
(* permit per connection, one reactor that waits for everything and has a  *)
(* pool's workers receive, execute and send, at most one of each per       *)
(* connection.  Receiving and sending may fail; whoever notices that the   *)
(* other one isn't busy has the reactor remove the connection.             *)
(*                                                                         *)
(* With Stays = FALSE that doesn't keep the other one from being started   *)
(* in between, as it was originally (commit 766f1e5).                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Conns, Limit, Workers, Packets, Stays

VARIABLES peer,         \* Per connection: [left, link, gone].
          at,           \* Where it is: "queue", "taken", "served", "removed".
          permits,
          can,          \* [r, s, rem]: the flags.
          failed,       \* [r, s].
          task,         \* [r, s]: "no", "queued", "running", "leaving".
          execs,        \* Requests: [queued, running].
          resp,         \* Responses: [waiting, sent].
          pc, todo, snap
vars == <<peer, at, permits, can, failed, task, execs, resp, pc, todo, snap>>
Sides == {"r", "s"}
Other(x) == IF x = "r" THEN "s" ELSE "r"

Init ==
    /\ peer = [c \in Conns |-> [left |-> Packets, link |-> 0, gone |-> FALSE]]
    /\ at = [c \in Conns |-> "queue"]
    /\ permits = Limit
    /\ can = [c \in Conns |-> [r |-> TRUE, s |-> TRUE, rem |-> FALSE]]
    /\ failed = [c \in Conns |-> [r |-> FALSE, s |-> FALSE]]
    /\ task = [c \in Conns |-> [r |-> "no", s |-> "no"]]
    /\ execs = [c \in Conns |-> [queued |-> 0, running |-> 0]]
    /\ resp = [c \in Conns |-> [waiting |-> 0, sent |-> 0, took |-> 0]]
    /\ pc = "look"
    /\ todo = {}
    /\ snap = [c \in Conns |-> [r |-> "never", s |-> "never", rem |-> "never"]]

\* Workers that are doing something.
Sum(f(_)) == LET RECURSIVE go(_)
                 go(S) == IF S = {} THEN 0
                          ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + go(S \ {x})
             IN go(Conns)
Busy == Sum(LAMBDA c : execs[c].running)
        + Sum(LAMBDA c : Cardinality({x \in Sides : task[c][x] \in {"running", "leaving"}}))

----------------------------------------------------------------------------
\* The other ends.
Send(c) ==
    /\ ~peer[c].gone /\ peer[c].left > 0
    /\ peer' = [peer EXCEPT ![c].left = @ - 1, ![c].link = @ + 1]
    /\ UNCHANGED <<at, permits, can, failed, task, execs, resp, pc, todo, snap>>
Leave(c) ==
    /\ ~peer[c].gone
    /\ peer' = [peer EXCEPT ![c].gone = TRUE]
    /\ UNCHANGED <<at, permits, can, failed, task, execs, resp, pc, todo, snap>>

\* The acceptor: a permit, then a connection.
Accept(c) ==
    /\ at[c] = "queue" /\ permits > 0
    /\ permits' = permits - 1
    /\ at' = [at EXCEPT ![c] = "taken"]
    /\ UNCHANGED <<peer, can, failed, task, execs, resp, pc, todo, snap>>

----------------------------------------------------------------------------
\* The reactor: looks at what there is to wait for, connection by connection,
Served == {c \in Conns : at[c] = "served"}
Items == {<<c, x>> : c \in Served, x \in {"r", "s", "rem"}}
Look ==
    /\ pc = "look"
    /\ snap' = [c \in Conns |->
                  IF at[c] # "served" THEN [r |-> "never", s |-> "never", rem |-> "never"]
                  ELSE [r |-> IF failed[c].r THEN "never" ELSE IF can[c].r THEN "data" ELSE "can",
                        s |-> IF failed[c].s THEN "never" ELSE IF can[c].s THEN "data" ELSE "can",
                        rem |-> "can"]]
    /\ pc' = "poll"
    /\ UNCHANGED <<peer, at, permits, can, failed, task, execs, resp, todo>>
Ready(c, x) ==
    CASE snap[c][x] = "never" -> FALSE
      [] snap[c][x] = "can" -> can[c][x]
      [] x = "r" -> peer[c].link > 0 \/ peer[c].gone
      [] x = "s" -> resp[c].waiting > 0
New == {c \in Conns : at[c] = "taken"}
Poll ==
    /\ pc = "poll"
    /\ LET ready == {y \in Items : Ready(y[1], y[2])}
       IN IF New = {} THEN ready # {} /\ todo' = ready
          ELSE \E c \in New : todo' = ready \cup {<<c, "new">>}
    /\ pc' = "react"
    /\ UNCHANGED <<peer, at, permits, can, failed, task, execs, resp, snap>>
Take(c) ==                       \* A new connection, if there was one.
    /\ pc = "react"
    /\ <<c, "new">> \in todo
    /\ at' = [at EXCEPT ![c] = "served"]
    /\ todo' = todo \ {<<c, "new">>}
    /\ UNCHANGED <<peer, permits, can, failed, task, execs, resp, pc, snap>>
\* removes connections after everything else was done about them,
React(c, x) ==
    /\ pc = "react"
    /\ <<c, x>> \in todo
    /\ x = "rem" => \A y \in Sides : <<c, y>> \notin todo
    /\ todo' = todo \ {<<c, x>>}
    /\ IF snap[c][x] = "can" /\ x # "rem"
       THEN UNCHANGED <<at, permits, can, task, resp>>
       ELSE IF x = "rem"
       THEN /\ at' = [at EXCEPT ![c] = "removed"]
            /\ permits' = permits + 1
            /\ UNCHANGED <<can, task, resp>>
       ELSE /\ resp' = IF x = "s" THEN [resp EXCEPT ![c].waiting = @ - 1] ELSE resp
            /\ IF Stays /\ failed[c][x] THEN UNCHANGED <<can, task>>
               ELSE /\ can' = [can EXCEPT ![c][x] = FALSE]
                    /\ task' = [task EXCEPT ![c][x] = "queued"]
            /\ UNCHANGED <<at, permits>>
    /\ UNCHANGED <<peer, failed, execs, pc, snap>>
Again ==
    /\ pc = "react" /\ todo = {}
    /\ pc' = "look"
    /\ UNCHANGED <<peer, at, permits, can, failed, task, execs, resp, todo, snap>>

----------------------------------------------------------------------------
\* The workers.
Start(c, x) ==
    /\ task[c][x] = "queued" /\ Busy < Workers
    /\ task' = [task EXCEPT ![c][x] = "running"]
    /\ UNCHANGED <<peer, at, permits, can, failed, execs, resp, pc, todo, snap>>
\* What's noted under the lock when done,
Done(c, x, fails) ==
    LET mine == failed[c][x] \/ fails
        removed == failed[c][Other(x)] \/ (can[c][Other(x)] /\ fails)
        f == [failed[c] EXCEPT ![x] = mine \/ removed]
    IN /\ failed' = [failed EXCEPT ![c] = IF removed /\ Stays
                                          THEN [r |-> TRUE, s |-> TRUE] ELSE f]
       /\ can' = [can EXCEPT ![c][x] = TRUE]
       /\ task' = [task EXCEPT ![c][x] = IF removed THEN "leaving" ELSE "no"]
\* and after it.
Tell(c, x) ==
    /\ task[c][x] = "leaving"
    /\ can' = [can EXCEPT ![c].rem = TRUE]
    /\ task' = [task EXCEPT ![c][x] = "no"]
    /\ UNCHANGED <<peer, at, permits, failed, execs, resp, pc, todo, snap>>
Receive(c) ==
    /\ task[c].r = "running"
    /\ IF peer[c].link > 0
       THEN /\ peer' = [peer EXCEPT ![c].link = @ - 1]
            /\ execs' = [execs EXCEPT ![c].queued = @ + 1]
            /\ Done(c, "r", FALSE)
       ELSE /\ peer[c].gone
            /\ Done(c, "r", TRUE)
            /\ UNCHANGED <<peer, execs>>
    /\ UNCHANGED <<at, permits, resp, pc, todo, snap>>
Answer(c, fails) ==
    /\ task[c].s = "running"
    /\ fails => peer[c].gone
    /\ Done(c, "s", fails)
    /\ resp' = IF fails THEN resp ELSE [resp EXCEPT ![c].sent = @ + 1]
    /\ UNCHANGED <<peer, at, permits, execs, pc, todo, snap>>
Execute(c) ==
    /\ execs[c].queued > 0 /\ Busy < Workers
    /\ execs' = [execs EXCEPT ![c].queued = @ - 1, ![c].running = @ + 1]
    /\ UNCHANGED <<peer, at, permits, can, failed, task, resp, pc, todo, snap>>
Finish(c) ==                     \* The reactor passes responses on.
    /\ execs[c].running > 0
    /\ execs' = [execs EXCEPT ![c].running = @ - 1]
    /\ resp' = IF at[c] = "served" THEN [resp EXCEPT ![c].waiting = @ + 1] ELSE resp
    /\ UNCHANGED <<peer, at, permits, can, failed, task, pc, todo, snap>>

Next ==
    \/ Look \/ Poll \/ Again
    \/ \E c \in Conns :
         \/ Send(c) \/ Leave(c) \/ Accept(c) \/ Take(c)
         \/ \E x \in {"r", "s", "rem"} : React(c, x)
         \/ \E x \in Sides : Start(c, x) \/ Tell(c, x)
         \/ Receive(c) \/ Execute(c) \/ Finish(c)
         \/ \E f \in BOOLEAN : Answer(c, f)

Fair ==
    /\ WF_vars(Look) /\ WF_vars(Poll) /\ WF_vars(Again)
    /\ \A c \in Conns :
         /\ SF_vars(Accept(c)) /\ WF_vars(Take(c))
         /\ \A x \in {"r", "s", "rem"} : WF_vars(React(c, x))
         /\ \A x \in Sides : SF_vars(Start(c, x)) /\ WF_vars(Tell(c, x))
         /\ WF_vars(Receive(c)) /\ SF_vars(Execute(c)) /\ WF_vars(Finish(c))
         /\ WF_vars(\E f \in BOOLEAN : Answer(c, f))
Spec == Init /\ [][Next]_vars /\ Fair

----------------------------------------------------------------------------
\* Nothing is done with a connection that was removed.
NotUsed ==
    \A c \in Conns : at[c] = "removed" => \A x \in Sides : task[c][x] \notin {"queued", "running"}
\* Removed at most once, and no more than allowed.
Permits ==
    permits = Limit - Cardinality({c \in Conns : at[c] \in {"taken", "served"}})
OneEach ==
    \A c \in Conns : \A x \in Sides :
        task[c][x] \in {"queued", "running"} => ~can[c][x]
Counted ==
    \A c \in Conns : resp[c].sent <= Packets - peer[c].left

\* Connections that ended make room, and the others are answered.
MadeRoom == \A c \in Conns : (peer[c].gone /\ at[c] # "queue") ~> at[c] = "removed"
Answered ==
    \A c \in Conns :
        (at[c] = "served") ~>
            (peer[c].gone \/ resp[c].sent = Packets - peer[c].left)
=============================================================================
