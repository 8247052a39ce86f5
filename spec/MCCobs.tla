------------------------------- MODULE MCCobs ------------------------------
(***************************************************************************)
(* All byte strings up to MaxLen over a few bytes, grown one at a time,    *)
(* and what COBS makes of them as data and as encodings.                   *)
(***************************************************************************)
EXTENDS Cobs
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Alphabet : s' = Append(s, b)
Spec == Init /\ [][Next]_s

\* Every string can be encoded.
EncodesEverything == IsEncoding(CobsEncode(s), s)
\* What's taken for an encoding is the encoding of what it decodes to, and
\* nothing with a zero in it is.
DecodesOnlyEncodings ==
    LET d == CobsDecode(s)
    IN /\ d.ok => /\ \A i \in 1..Len(s) : s[i] # 0
                  /\ Len(d.data) < Len(s)
       /\ (\E i \in 1..Len(s) : s[i] = 0) => ~d.ok
\* An encoding with its end cut off (but for whole full blocks) isn't another
\* string's unless the rest starts at a block.
PrefixesAreShorter ==
    \A n \in 0..(Len(s) - 1) :
      LET e == CobsEncode(s)
          d == CobsDecode(SubSeq(e, 1, n))
      IN (n < Len(e) /\ d.ok) => d.data # s \/ e[n + 1] = 1
=============================================================================
