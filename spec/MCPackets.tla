----------------------------- MODULE MCPackets -----------------------------
(***************************************************************************)
(* A sender, a line that damages bytes and a receiver, with a MAC that's   *)
(* too short to be any good but for finding out about damage to a packet   *)
(* whose bytes are small.                                                  *)
(***************************************************************************)
EXTENDS Packets
CONSTANTS MaxPackets, MaxFaults, Alphabet, MaxData

VARIABLES sent,       \* data of the packets sent
          frames,     \* their places on the line: <<first, last>>
          line,       \* what's on the line
          faults,     \* how many bytes were damaged or lost
          hit,        \* packets that may have been damaged
          pos,        \* the receiver's
          got         \* what it got: <<data>>, or <<>> for an error
vars == <<sent, frames, line, faults, hit, pos, got>>

Sum(d) == FoldLeft(LAMBDA a, b : (a * 3 + b + 1) % 251, 7, d)
TheMac(d) == <<Sum(d), (Sum(d) * 17 + 5) % 251>>

Datas == UNION {[1..n -> Alphabet] : n \in 0..MaxData}

Init == /\ sent = <<>> /\ frames = <<>> /\ line = <<>> /\ faults = 0
        /\ hit = {} /\ pos = 1 /\ got = <<>>

Send(d) ==
    /\ Len(sent) < MaxPackets
    /\ pos = 1
    /\ LET f == SerialFrame(d)
       IN /\ IsSerialFrame(f, d)
          /\ line' = line \o f
          /\ frames' = Append(frames, <<Len(line) + 1, Len(line) + Len(f)>>)
    /\ sent' = Append(sent, d)
    /\ UNCHANGED <<faults, hit, pos, got>>

\* Only the bytes inside of frames: a zero that's damaged joins two of them.
Damage(i, b) ==
    /\ faults < MaxFaults
    /\ Len(sent) = MaxPackets
    /\ pos = 1
    /\ line[i] # b
    /\ line' = [line EXCEPT ![i] = b]
    /\ faults' = faults + 1
    /\ hit' = hit \union {k \in 1..Len(frames) :
                 \/ frames[k][1] <= i /\ i <= frames[k][2]
                 \/ k > 1 /\ frames[k - 1][2] = i}
    /\ UNCHANGED <<sent, frames, pos, got>>

Receive ==
    /\ Len(sent) = MaxPackets
    /\ pos <= Len(line)
    /\ LET r == SerialReceive(line, pos, 1000)
       IN /\ pos' = r.p
          /\ got' = Append(got, IF r.res = "ok" THEN <<r.data>> ELSE <<>>)
    /\ UNCHANGED <<sent, frames, line, faults, hit>>

Next == \/ \E d \in Datas : Send(d)
        \/ \E i \in 1..Len(line), b \in Alphabet : Damage(i, b)
        \/ Receive
Spec == Init /\ [][Next]_vars

Undamaged == LET all == [k \in 1..Len(sent) |-> <<k, sent[k]>>]
             IN SelectSeq(all, LAMBDA x : x[1] \notin hit)

\* Packets that weren't touched all arrive, in order.
UntouchedArrive ==
    pos > Len(line) /\ Len(sent) = MaxPackets =>
       \E f \in [1..Len(Undamaged) -> 1..Len(got)] :
          /\ \A i \in 1..Len(Undamaged) : got[f[i]] = <<Undamaged[i][2]>>
          /\ \A i, j \in 1..Len(Undamaged) : i < j => f[i] < f[j]
\* Without damage there's nothing else.
ExactlyOnce ==
    pos > Len(line) /\ faults = 0 => got = [k \in 1..Len(sent) |-> <<sent[k]>>]
=============================================================================
