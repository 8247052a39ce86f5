------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Bytes, variable-length integers and 32-bit words as TLC can hold them.  *)
(* A byte is 0..255, a byte string a sequence of bytes, and a 32-bit word  *)
(* a pair of 16-bit limbs <<high, low>> (TLC's own integers are 32-bit and *)
(* signed).                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise

Byte == 0..255

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* Seven bits per byte, least significant first; all but the last byte have
\* their high bit set.
RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Varint(n \div 128)

\* Values from Big on aren't told apart: no count or identifier that large can
\* be right in the inputs we deal with, which are much shorter.
Big == 16777216

\* Length of the variable-length integer starting at in[p] (that is, up to the
\* first byte without the high bit), or 0 if the input ends before.
RECURSIVE VarintLen(_, _, _)
VarintLen(in, p, n) ==
    IF p + n > Len(in) THEN 0
    ELSE IF in[p + n] < 128 THEN n + 1
    ELSE VarintLen(in, p, n + 1)

\* Decodes an integer of up to 64 bits at in[p].
\* [e: error or "", n: value (Big if that or more), p: next position].
\* Bytes are judged one at a time: what's wrong first is what's reported.
RECURSIVE VarintAt(_, _, _, _)
VarintAt(in, p, i, n) ==
    IF p > Len(in) THEN [e |-> "eof", n |-> 0, p |-> p]
    ELSE LET b == in[p]
             bits == b % 128
             \* i-th byte (from 0) holds bits 7i..7i+6.
             over == i > 9 \/ (i = 9 /\ bits > 1)
             v == IF n = Big \/ (i > 3 /\ bits > 0) \/ (i = 3 /\ bits > 7)
                  THEN Big
                  ELSE IF i > 3 THEN n ELSE n + bits * (128 ^ i)
         IN IF over THEN [e |-> "data_mismatch", n |-> 0, p |-> p]
            ELSE IF b < 128 THEN [e |-> "", n |-> v, p |-> p + 1]
            ELSE VarintAt(in, p + 1, i + 1, v)
ReadVarint(in, p) == VarintAt(in, p, 0, 0)

----------------------------------------------------------------------------
\* 32-bit words.
W32(h, l) == <<h, l>>
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
\* Little endian bytes.
Bytes32(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
\* Times the 32-bit FNV prime, 16777619 = 2^24 + 403.
TimesFnv(w) ==
    LET l == w[2] * 403
        h == w[1] * 403 + (l \div 65536) + (w[2] % 256) * 256
    IN <<h % 65536, l % 65536>>
=============================================================================
