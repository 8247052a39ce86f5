------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* Streams of bytes: over strings, over standard streams, and over classes *)
(* that only implement reading or writing of single bytes, or of many.     *)
(* Streams may break at some position (fault).                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Min2(a, b) == IF a < b THEN a ELSE b

Result(s, v, e) == [s |-> s, v |-> v, e |-> e]

\* s: [data, at, fault, broken].  Reading up to n bytes; a stream that breaks
\* on the way fails, and istreams remain broken.
ReadUpTo(s, n) ==
    LET m == Min2(n, Len(s.data) - s.at)
        \* Streams over streambufs and single bytes look for one byte more
        \* than there are; others are asked for all of them at once.
        needed == IF s.kind = "read" THEN s.at + n
                  ELSE IF n > m THEN s.at + m + 1 ELSE s.at + n
    IN IF s.broken \/ (needed > s.fault /\ n > 0)
       THEN Result([s EXCEPT !.broken = s.kind = "istream"], <<>>, "io_error")
       ELSE Result([s EXCEPT !.at = @ + m],
                   SubSeq(s.data, s.at + 1, s.at + m), "")
ReadFully(s, n) ==
    LET r == ReadUpTo(s, n)
    IN IF r.e = "" /\ Len(r.v) < n THEN Result(r.s, <<>>, "eof") ELSE r
ReadOne(s) == ReadFully(s, 1)
Seek(s, n) == IF n > Len(s.data) THEN Result(s, <<>>, "out_of_range")
              ELSE Result([s EXCEPT !.at = n], <<>>, "")

\* Written: everything, or an error and some of it.
WriteAll(s, d, after) ==
    IF ~s.broken /\ Len(s.data) + Len(d) <= s.fault
    THEN /\ after = s.data \o d
    ELSE /\ Len(after) <= s.fault
         /\ \E n \in 0..Len(d) : after = s.data \o SubSeq(d, 1, n)
WriteFails(s, d) == s.broken \/ Len(s.data) + Len(d) > s.fault
=============================================================================
