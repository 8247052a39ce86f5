---------------------------- MODULE DesignClient ----------------------------
(***************************************************************************)
(* How clients work: callers note their requests as pending, and send them, *)
(* one at a time, over a connection that's made when there is none; one      *)
(* thread receives responses and, when the link breaks, takes the connection *)
(* down and tells all pending requests.  The server executes what arrives    *)
(* and answers in any order.                                                *)
(*                                                                         *)
(* Links may also break so that nobody takes what's sent any more, which     *)
(* only whoever receives can tell.  The receiver takes the connection down   *)
(* before it waits for whom that stops; with Early = FALSE it doesn't.      *)
(*                                                                         *)
(* With Wait = FALSE senders connect again right after one of them closed   *)
(* the connection because sending failed, as it was originally (commit      *)
(* 6ccd4d5): the receiver then took down the next connection instead.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Callers, Calls, MaxBreaks, Wait, Early

VARIABLES conn,         \* The connection: its link, or 0.
          links,        \* What's on its way, and whether they're broken.
          sending,      \* Who holds the lock.
          ready, received,
          pending,      \* Requests to be answered.
          result,       \* Of those that were: [k, v].
          pc, call,     \* Of callers.
          start,        \* How many links were all right when the call began.
          rpc, rlink,   \* Of the receiver, and the link it reads from.
          executed, cut, breaks
vars == <<conn, links, sending, ready, received, pending, result, pc, call, start, rpc, rlink,
          executed, cut, breaks>>

Nobody == 0
Receiver == 100
Id(c) == c * 10 + call[c]
NewLink == [up |-> <<>>, down |-> {}, broken |-> FALSE, deaf |-> FALSE, closed |-> FALSE]

Init ==
    /\ conn = 0 /\ links = <<>>
    /\ sending = Nobody /\ ready = FALSE /\ received = FALSE
    /\ pending = {} /\ result = [i \in {} |-> 0]
    /\ pc = [c \in Callers |-> "idle"]
    /\ call = [c \in Callers |-> 0]
    /\ start = [c \in Callers |-> 0]
    /\ rpc = "wait" /\ rlink = 0
    /\ executed = <<>> /\ cut = FALSE /\ breaks = 0

Go(c, x) == pc' = [pc EXCEPT ![c] = x]
Settle(ids, r(_)) == result' = [i \in DOMAIN result \union ids |-> IF i \in ids THEN r(i) ELSE result[i]]

Begin(c) ==
    /\ pc[c] = "idle" /\ call[c] < Calls
    /\ call' = [call EXCEPT ![c] = @ + 1]
    /\ pending' = pending \union {c * 10 + call'[c]}
    \* Is there something wrong already that nobody noticed yet?
    /\ start' = [start EXCEPT ![c] =
                   breaks - (IF \/ \E l \in 1..Len(links) : links[l].broken /\ ~links[l].closed
                                \/ rpc \in {"leave", "failed"} \/ (ready /\ conn = 0)
                                \/ \E d \in Callers : pc[d] = "failed"
                             THEN 1 ELSE 0)]
    /\ Go(c, "lock")
    /\ UNCHANGED <<conn, links, sending, ready, received, result, rpc, rlink, executed, cut, breaks>>
Lock(c) ==
    /\ pc[c] = "lock" /\ sending = Nobody
    /\ IF Wait /\ ready /\ conn = 0 THEN Go(c, "unlocked") /\ UNCHANGED sending
       ELSE Go(c, "connect") /\ sending' = c
    /\ UNCHANGED <<conn, links, ready, received, pending, result, call, start, rpc, rlink, executed, cut, breaks>>
Unlocked(c) ==
    /\ pc[c] = "unlocked" /\ received
    /\ Go(c, "lock")
    /\ UNCHANGED <<conn, links, sending, ready, received, pending, result, call, start, rpc, rlink, executed, cut, breaks>>
Connect(c) ==
    /\ pc[c] = "connect"
    /\ IF conn = 0 /\ (~ready \/ ~Wait)
       THEN conn' = Len(links) + 1 /\ links' = Append(links, NewLink)
       ELSE UNCHANGED <<conn, links>>
    /\ ready' = IF Early THEN TRUE ELSE ready
    /\ Go(c, "send")
    /\ UNCHANGED <<sending, received, pending, result, call, start, rpc, rlink, executed, cut, breaks>>
\* On a broken link, sending may fail; when nobody takes it, it stops.
Send(c) ==
    /\ pc[c] = "send"
    /\ \/ /\ conn # 0 /\ ~links[conn].deaf
          /\ links' = IF links[conn].broken THEN links
                      ELSE [links EXCEPT ![conn].up = Append(@, Id(c))]
          /\ Go(c, "ready")
       \/ /\ IF conn = 0 THEN TRUE ELSE links[conn].broken /\ ~links[conn].deaf
          /\ Go(c, "failed")
          /\ UNCHANGED links
    /\ UNCHANGED <<conn, sending, ready, received, pending, result, call, start, rpc, rlink, executed, cut, breaks>>
SetReady(c) ==
    /\ pc[c] = "ready"
    /\ ready' = TRUE
    /\ sending' = Nobody
    /\ Go(c, "result")
    /\ UNCHANGED <<conn, links, received, pending, result, call, start, rpc, rlink, executed, cut, breaks>>
Failed(c) ==
    /\ pc[c] = "failed"
    /\ received' = IF ready THEN FALSE ELSE received
    /\ links' = IF conn = 0 THEN links ELSE [links EXCEPT ![conn].closed = TRUE]
    /\ conn' = 0
    /\ sending' = Nobody
    /\ Go(c, "abandon")
    /\ UNCHANGED <<ready, pending, result, call, start, rpc, rlink, executed, cut, breaks>>
Abandon(c) ==
    /\ pc[c] = "abandon"
    /\ pending' = pending \ {Id(c)}
    /\ Settle({Id(c)}, LAMBDA i : [k |-> "error", v |-> 0])
    /\ Go(c, "idle")
    /\ UNCHANGED <<conn, links, sending, ready, received, call, start, rpc, rlink, executed, cut, breaks>>
Result(c) ==
    /\ pc[c] = "result" /\ Id(c) \in DOMAIN result
    /\ Go(c, "idle")
    /\ UNCHANGED <<conn, links, sending, ready, received, pending, result, call, start, rpc, rlink, executed, cut, breaks>>

\* The receiver.
RWait ==
    /\ rpc = "wait" /\ ready
    /\ rpc' = "receive"
    /\ UNCHANGED <<conn, links, sending, ready, received, pending, result, pc, call, start, rlink, executed, cut, breaks>>
RStart ==
    /\ rpc = "receive"
    /\ rlink' = conn
    /\ rpc' = IF conn = 0 THEN "leave" ELSE "read"
    /\ UNCHANGED <<conn, links, sending, ready, received, pending, result, pc, call, start, executed, cut, breaks>>
RRead ==
    /\ rpc = "read"
    /\ LET ln == links[rlink]
       IN \/ \E i \in ln.down :
               /\ ~ln.closed
               /\ links' = [links EXCEPT ![rlink].down = @ \ {i}]
               /\ pending' = pending \ {i}
               /\ IF i \in pending THEN Settle({i}, LAMBDA x : [k |-> "ok", v |-> i])
                  ELSE UNCHANGED result
               /\ rpc' = "receive"
          \/ /\ ln.closed \/ ln.broken
             /\ rpc' = "leave"
             /\ UNCHANGED <<links, pending, result>>
    /\ UNCHANGED <<conn, sending, ready, received, pc, call, start, rlink, executed, cut, breaks>>
\* Taking a connection down that's all right, or isn't the one that broke, is wrong.
Down == IF conn = 0 THEN UNCHANGED <<links, conn, cut>>
        ELSE /\ links' = [links EXCEPT ![conn].closed = TRUE]
             /\ cut' = (cut \/ ~links[conn].broken)
             /\ conn' = 0
RLeave ==
    /\ rpc = "leave"
    /\ IF Early THEN received' = FALSE /\ Down
       ELSE UNCHANGED <<received, links, conn, cut>>
    /\ rpc' = "failed"
    /\ UNCHANGED <<sending, ready, pending, result, pc, call, start, rlink, executed, breaks>>
RFailed ==
    /\ rpc = "failed" /\ sending = Nobody
    /\ ready' = FALSE
    /\ Down
    /\ Settle(pending, LAMBDA i : [k |-> "error", v |-> 0])
    /\ pending' = {}
    /\ received' = TRUE
    /\ rpc' = "wait" /\ rlink' = 0
    /\ UNCHANGED <<sending, pc, call, start, executed, breaks>>

\* The server, and the line.
Execute(l) ==
    /\ links[l].up # <<>>
    /\ executed' = Append(executed, Head(links[l].up))
    /\ links' = [links EXCEPT ![l].up = Tail(@),
                              ![l].down = IF links[l].broken \/ links[l].closed THEN @
                                          ELSE @ \union {Head(links[l].up)}]
    /\ UNCHANGED <<conn, sending, ready, received, pending, result, pc, call, start, rpc, rlink, cut, breaks>>
Break(l) ==
    /\ breaks < MaxBreaks /\ ~links[l].broken /\ ~links[l].closed
    /\ breaks' = breaks + 1
    \* Some of what was on its way may still get through.
    /\ \E n \in 0..Len(links[l].up), d \in SUBSET links[l].down, deaf \in BOOLEAN :
         links' = [links EXCEPT ![l].broken = TRUE, ![l].down = d, ![l].deaf = deaf,
                                ![l].up = SubSeq(@, 1, n)]
    /\ UNCHANGED <<conn, sending, ready, received, pending, result, pc, call, start, rpc, rlink, executed, cut>>

Caller(c) == \/ Begin(c) \/ Lock(c) \/ Unlocked(c) \/ Connect(c) \/ Send(c) \/ SetReady(c)
             \/ Failed(c) \/ Abandon(c) \/ Result(c)
TheReceiver == RWait \/ RStart \/ RRead \/ RLeave \/ RFailed
Next == \/ \E c \in Callers : Caller(c)
        \/ TheReceiver
        \/ \E l \in 1..Len(links) : Execute(l) \/ Break(l)
Fair == /\ \A c \in Callers : SF_vars(Caller(c))
        /\ SF_vars(TheReceiver)
        /\ \A l \in 1..(Calls * Cardinality(Callers)) : WF_vars(l <= Len(links) /\ Execute(l))
Spec == Init /\ [][Next]_vars /\ Fair

---------------------------------------------------------------------------
AtMostOnce == \A i, j \in 1..Len(executed) : executed[i] = executed[j] => i = j
Own == \A i \in DOMAIN result : result[i].k = "ok" => result[i].v = i
OkExecuted == \A i \in DOMAIN result :
    result[i].k = "ok" => \E j \in 1..Len(executed) : executed[j] = i
\* Links that are all right aren't taken down.
NeverCut == ~cut
\* Calls fail only when a link broke, or hadn't been cleaned up after.
Reasons == \A c \in Callers :
    call[c] > 0 /\ Id(c) \in DOMAIN result /\ result[Id(c)].k = "error" => breaks > start[c]
\* Nobody waits for a request to be sent that can't be.
NoneStopped ==
    ~(\E c \in Callers : pc[c] = "send" /\ conn # 0 /\ links[conn].deaf /\ rpc = "failed")
AllEnd == <>(\A c \in Callers : pc[c] = "idle" /\ call[c] = Calls)
=============================================================================
