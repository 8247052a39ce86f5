-------------------------------- MODULE Cobs -------------------------------
(***************************************************************************)
(* Consistent Overhead Byte Stuffing (Cheshire and Baker, 1999): blocks of *)
(* a code byte, 1..MaxRun+1, and one byte less than it says.  Blocks that  *)
(* aren't full stand for a zero after them, but for the last one.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANT MaxRun         \* 254, less to check it exhaustively.

Malformed == [ok |-> FALSE, data |-> <<>>]

RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(s, p, acc) ==
    IF p > Len(s) THEN [ok |-> TRUE, data |-> acc]
    ELSE LET n == s[p] - 1
             block == SubSeq(s, p + 1, p + n)
             last == p + n = Len(s)
         IN IF \/ s[p] = 0
               \/ p + n > Len(s)
               \/ \E i \in 1..n : block[i] = 0
            THEN Malformed
            ELSE DecodeFrom(s, p + n + 1,
                   acc \o block \o (IF n < MaxRun /\ ~last THEN <<0>> ELSE <<>>))
CobsDecode(s) == IF s = <<>> THEN Malformed ELSE DecodeFrom(s, 1, <<>>)

\* A valid encoding of the data.
IsEncoding(e, data) ==
    /\ \A i \in 1..Len(e) : e[i] # 0
    /\ CobsDecode(e) = [ok |-> TRUE, data |-> data]
    /\ Len(e) <= Len(data) + 1 + (Len(data) \div MaxRun)

\* One that has these properties: the runs of other bytes between the zeros,
\* in pieces of at most MaxRun.
RECURSIVE EncodeFrom(_, _, _)
EncodeFrom(d, p, run) ==
    IF Len(run) = MaxRun
    THEN <<MaxRun + 1>> \o run \o EncodeFrom(d, p, <<>>)
    ELSE IF p > Len(d) THEN <<Len(run) + 1>> \o run
    ELSE IF d[p] = 0 THEN <<Len(run) + 1>> \o run \o EncodeFrom(d, p + 1, <<>>)
    ELSE EncodeFrom(d, p + 1, Append(run, d[p]))
CobsEncode(d) == EncodeFrom(d, 1, <<>>)
=============================================================================
