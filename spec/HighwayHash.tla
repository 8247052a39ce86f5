---------------------------- MODULE HighwayHash ----------------------------
(***************************************************************************)
(* HighwayHash as published (https://arxiv.org/abs/1612.06257 and Google's *)
(* portable reference implementation): the state of a hash in progress and *)
(* its steps.  64-bit words are sequences of eight bytes, the least        *)
(* significant first.                                                      *)
(***************************************************************************)
EXTENDS Bytes, TLC

Zero64 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Xor64(a, b) == [i \in 1..8 |-> a[i] ^^ b[i]]

\* Normalizes eight columns that may exceed a byte.
Carry(c) ==
    LET d1 == c[1]
        d2 == c[2] + (d1 \div 256)
        d3 == c[3] + (d2 \div 256)
        d4 == c[4] + (d3 \div 256)
        d5 == c[5] + (d4 \div 256)
        d6 == c[6] + (d5 \div 256)
        d7 == c[7] + (d6 \div 256)
        d8 == c[8] + (d7 \div 256)
    IN <<d1 % 256, d2 % 256, d3 % 256, d4 % 256,
         d5 % 256, d6 % 256, d7 % 256, d8 % 256>>

Add64(a, b) == Carry([i \in 1..8 |-> a[i] + b[i]])
Add64x3(a, b, c) == Carry([i \in 1..8 |-> a[i] + b[i] + c[i]])
Add64x4(a, b, c, d) == Carry([i \in 1..8 |-> a[i] + b[i] + c[i] + d[i]])

Low32(a) == SubSeq(a, 1, 4)
High32(a) == SubSeq(a, 5, 8)

\* Product of two 32-bit halves.
Mul32(a, b) ==
    Carry(<<a[1] * b[1],
            a[1] * b[2] + a[2] * b[1],
            a[1] * b[3] + a[2] * b[2] + a[3] * b[1],
            a[1] * b[4] + a[2] * b[3] + a[3] * b[2] + a[4] * b[1],
            a[2] * b[4] + a[3] * b[3] + a[4] * b[2],
            a[3] * b[4] + a[4] * b[3],
            a[4] * b[4],
            0>>)

SwapHalves(a) == High32(a) \o Low32(a)

Mul0Init == <<<<47, 206, 76, 254, 213, 213, 230, 219>>,
              <<208, 49, 159, 41, 34, 56, 9, 164>>,
              <<68, 115, 112, 3, 46, 138, 25, 19>>,
              <<211, 8, 163, 133, 136, 106, 63, 36>>>>
Mul1Init == <<<<147, 245, 14, 203, 16, 158, 211, 59>>,
              <<140, 138, 241, 181, 105, 241, 172, 192>>,
              <<108, 12, 233, 52, 207, 102, 84, 190>>,
              <<119, 19, 208, 56, 230, 33, 40, 69>>>>

\* key: four words.
HhInit(key) ==
    [v0 |-> [i \in 1..4 |-> Xor64(Mul0Init[i], key[i])],
     v1 |-> [i \in 1..4 |-> Xor64(Mul1Init[i], SwapHalves(key[i]))],
     m0 |-> Mul0Init, m1 |-> Mul1Init]

\* The bytes of two words, rearranged (hi:lo), as the published byte shuffle
\* has them.
Zip0(hi, lo) == <<lo[4], hi[5], lo[3], lo[6], hi[7], lo[2], hi[8], lo[1]>>
Zip1(hi, lo) == <<hi[4], lo[5], hi[3], hi[6], hi[2], lo[7], hi[1], lo[8]>>
ZipAdd(to, from) ==
    <<Add64(to[1], Zip0(from[2], from[1])), Add64(to[2], Zip1(from[2], from[1])),
      Add64(to[3], Zip0(from[4], from[3])), Add64(to[4], Zip1(from[4], from[3]))>>

Update(s, lanes) ==
    LET v1 == TLCEval([i \in 1..4 |-> Add64x3(s.v1[i], s.m0[i], lanes[i])])
        m0 == TLCEval([i \in 1..4 |-> Xor64(s.m0[i], Mul32(Low32(v1[i]), High32(s.v0[i])))])
        v0 == TLCEval([i \in 1..4 |-> Add64(s.v0[i], s.m1[i])])
        m1 == TLCEval([i \in 1..4 |-> Xor64(s.m1[i], Mul32(Low32(v0[i]), High32(v1[i])))])
        v0z == TLCEval(ZipAdd(v0, v1))
        v1z == TLCEval(ZipAdd(v1, v0z))
    IN [v0 |-> v0z, v1 |-> v1z, m0 |-> m0, m1 |-> m1]

\* 32 bytes, as four words.
UpdatePacket(s, p) ==
    Update(s, [i \in 1..4 |-> SubSeq(p, 8 * i - 7, 8 * i)])

\* Rotates 32 bits, as four bytes, left by n (0..31).
Rot32(h, n) ==
    LET q == n \div 8
        r == n % 8
        b(i) == h[((i + 3 - q) % 4) + 1]     \* after moving by whole bytes
        c(i) == h[((i + 2 - q) % 4) + 1]     \* the one below
    IN [i \in 1..4 |-> ((b(i) * 2^r) % 256) + ((c(i) * 2^r) \div 256)]

\* 1 to 31 bytes at the end.
UpdateRemainder(s, rem) ==
    LET n == Len(rem)
        n4 == n % 4
        whole == n - n4
        size == <<n, 0, 0, 0, n, 0, 0, 0>>
        byte(i) ==      \* i from 0
            IF i < whole THEN rem[i + 1]
            ELSE IF n >= 16
            THEN IF i >= 28 THEN rem[whole + (i - 28) + n4 - 4 + 1] ELSE 0
            ELSE IF n4 = 0 THEN 0
            ELSE IF i = 16 THEN rem[whole + 1]
            ELSE IF i = 17 THEN rem[whole + (n4 \div 2) + 1]
            ELSE IF i = 18 THEN rem[whole + n4]
            ELSE 0
        s2 == [s EXCEPT
                 !.v0 = [i \in 1..4 |-> Add64(@[i], size)],
                 !.v1 = [i \in 1..4 |-> Rot32(Low32(@[i]), n) \o
                                        Rot32(High32(@[i]), n)]]
    IN UpdatePacket(s2, [i \in 1..32 |-> byte(i - 1)])

\* All of some data, the buffered beginning of a packet included.
HhProcess(s, data) ==
    LET n == Len(data) \div 32
        body == FoldLeft(LAMBDA x, i :
                           UpdatePacket(x, SubSeq(data, 32 * i - 31, 32 * i)),
                         s, [i \in 1..n |-> i])
        rest == SubSeq(data, 32 * n + 1, Len(data))
    IN IF rest = <<>> THEN body ELSE UpdateRemainder(body, rest)

RECURSIVE Rounds(_, _)
Rounds(s, n) ==
    IF n = 0 THEN s
    ELSE Rounds(Update(s, <<SwapHalves(s.v0[3]), SwapHalves(s.v0[4]),
                            SwapHalves(s.v0[1]), SwapHalves(s.v0[2])>>), n - 1)

Finish64(s) ==
    LET f == Rounds(s, 4)
    IN <<Add64x4(f.v0[1], f.v1[1], f.m0[1], f.m1[1])>>

Finish128(s) ==
    LET f == Rounds(s, 6)
    IN <<Add64x4(f.v0[1], f.m0[1], f.v1[3], f.m1[3]),
         Add64x4(f.v0[2], f.m0[2], f.v1[4], f.m1[4])>>

\* Left by n < 8 bits; in: the bits to shift in.
Shl(a, n, in) ==
    [i \in 1..8 |-> ((a[i] * 2^n) % 256) +
                    (IF i = 1 THEN in ELSE (a[i - 1] * 2^n) \div 256)]
\* a3:a2:a1:a0 reduced to two words, <<m1, m0>>.
Reduce(a3u, a2, a1, a0) ==
    LET a3 == [a3u EXCEPT ![8] = @ % 64]
    IN <<Xor64(a1, Xor64(Shl(a3, 1, a2[8] \div 128), Shl(a3, 2, a2[8] \div 64))),
         Xor64(a0, Xor64(Shl(a2, 1, 0), Shl(a2, 2, 0)))>>

Finish256(s) ==
    LET f == Rounds(s, 10)
        r(i) == Reduce(Add64(f.v1[i + 1], f.m1[i + 1]), Add64(f.v1[i], f.m1[i]),
                       Add64(f.v0[i + 1], f.m0[i + 1]), Add64(f.v0[i], f.m0[i]))
        lo == r(1)
        hi == r(3)
    IN <<lo[2], lo[1], hi[2], hi[1]>>

Finish(s, bits) ==
    CASE bits = 64 -> Finish64(s)
      [] bits = 128 -> Finish128(s)
      [] bits = 256 -> Finish256(s)

HighwayHash(key, data, bits) == Finish(HhProcess(HhInit(key), data), bits)
=============================================================================
