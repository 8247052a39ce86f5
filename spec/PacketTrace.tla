---------------------------- MODULE PacketTrace ----------------------------
(***************************************************************************)
(* Checks what codecs, hashes and packet protocols did: one session of a   *)
(* codec, a hash or a pair of sender and receiver per line.                *)
(***************************************************************************)
EXTENDS HighwayHash, Json, IOUtils, FiniteSets

RECURSIVE Flatten2(_)
Flatten2(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws) \o Flatten2(Tail(ws))
MacKey(key, data) == Flatten2(HighwayHash(key, data, 64))
DefaultKey == <<<<135, 126, 253, 75, 84, 187, 185, 182>>,
                <<212, 223, 199, 199, 204, 247, 195, 213>>,
                <<129, 199, 199, 35, 0, 187, 125, 128>>,
                <<108, 66, 213, 11, 98, 61, 71, 19>>>>
DefaultMac(data) == MacKey(DefaultKey, data)

C == INSTANCE Packets WITH MaxRun <- 254, Mac <- DefaultMac, MacLen <- 8

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* A hash in progress: bytes are appended, results taken in between.
HashStep(st, op) ==
    CASE op.o = "append" -> [st EXCEPT !.data = @ \o op.d]
      [] op.o = "reset" -> [st EXCEPT !.key = op.d, !.data = <<>>]
      [] op.o = "finish" ->
           [st EXCEPT !.ok = @ /\ HighwayHash(st.key, st.data, op.bits) = op.d]

CobsDecOk(r) ==
    LET d == C!CobsDecode(r["in"])
    IN IF d.ok THEN r.res = "ok" /\ r.out = d.data ELSE r.res = "data_mismatch"

MacDecOk(r) ==
    LET n == Len(r["in"]) - 8
        data == SubSeq(r["in"], 1, n)
    IN IF n >= 0 /\ data \o MacKey(r.key, data) = r["in"]
       THEN r.res = "ok" /\ r.out = data
       ELSE r.res = "data_mismatch"

\* Frames of what was sent.  If the line was left alone, everything arrives
\* once and in order.  In any case the receiver gets what the protocol makes
\* of the line, up to its end.
PositionsFrom(results) == [i \in 1..Len(results) |->
                             IF i = 1 THEN 1 ELSE results[i - 1].p + 1]
SerialOk(r) ==
    LET from == PositionsFrom(r.results)
        good == SelectSeq(r.results, LAMBDA x : x.res = "ok")
    IN /\ \A i \in 1..Len(r.sent) : C!IsSerialFrame(r.frames[i], r.sent[i])
       /\ \A i \in 1..Len(r.results) :
            LET x == C!SerialReceive(r.line, from[i], r.max)
                y == r.results[i]
            IN x.res = y.res /\ x.p = y.p + 1 /\ x.data = y.data
       /\ r.results # <<>> /\ r.results[Len(r.results)].res = "eof"
       /\ r.clean = 1 => [i \in 1..Len(good) |-> good[i].data] = r.sent

\* Lengths, then the data.
StreamReceive(s, p) ==
    LET n == ReadVarint(s, p)
    IN IF n.e # "" THEN C!Error(n.p, n.e)
       ELSE IF n.n > Len(s) - n.p + 1 THEN C!Error(n.p, "eof")
       ELSE C!Packet(n.p + n.n, SubSeq(s, n.p, n.p + n.n - 1))
StreamOk(r) ==
    LET from == PositionsFrom(r.results)
        good == SelectSeq(r.results, LAMBDA x : x.res = "ok")
    IN /\ \A i \in 1..Len(r.sent) :
            r.frames[i] = Varint(Len(r.sent[i])) \o r.sent[i]
       /\ \A i \in 1..Len(r.results) :
            LET x == StreamReceive(r.line, from[i])
                y == r.results[i]
            IN /\ x.res = y.res
               /\ x.res = "ok" => x.p = y.p + 1 /\ x.data = y.data
       /\ r.clean = 1 =>
            /\ [i \in 1..Len(good) |-> good[i].data] = r.sent
            /\ r.results[Len(r.results)].res = "eof"

LineOk(r) ==
    CASE r.op = "cobs_enc" -> C!IsEncoding(r.out, r["in"])
      [] r.op = "cobs_dec" -> CobsDecOk(r)
      [] r.op = "mac_enc" -> r.out = r["in"] \o MacKey(r.key, r["in"])
      [] r.op = "mac_dec" -> MacDecOk(r)
      [] r.op = "hash1" -> HighwayHash(r.key, r.data, r.bits) = r.h
      [] r.op = "hash" ->
           FoldLeft(HashStep, [key |-> r.key, data |-> <<>>, ok |-> TRUE], r.ops).ok
      [] r.op = "serial" -> SerialOk(r)
      [] r.op = "stream" -> StreamOk(r)

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
