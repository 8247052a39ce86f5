------------------------------- MODULE Links -------------------------------
(***************************************************************************)
(* Connections over links that carry bytes in both directions.  What's     *)
(* been written at one end is read at the other once and in order.  An end *)
(* that is closed interrupts what's done there, and lets the other end     *)
(* read what is on its way, and then that there's no more.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* Of both ends: data that has arrived, by writes that are over; how much of
\* what's being written was read already; whether the end of data was seen;
\* whether the end may be closed for writing, reading, or altogether.
NewLink == [data |-> <<<<>>, <<>>>>, pre |-> <<0, 0>>, eof |-> <<FALSE, FALSE>>,
            wr |-> <<FALSE, FALSE>>, rd |-> <<FALSE, FALSE>>,
            dead |-> <<FALSE, FALSE>>, more |-> <<FALSE, FALSE>>]
Other(k) == 3 - k
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Shut(x, k, r) == [x EXCEPT !.wr[k] = TRUE, !.rd[k] = @ \/ r]
Close(x, k) == [x EXCEPT !.wr[k] = TRUE, !.rd[k] = TRUE, !.dead[k] = TRUE]

\* rest: of what's being written, the part that hasn't been read yet.
CanRead(x, k, rest, d) == IsPrefix(d, x.data[k] \o rest)
Read(x, k, n) ==
    LET have == Len(x.data[k])
    IN IF n <= have THEN [x EXCEPT !.data[k] = Drop(@, n)]
       ELSE [x EXCEPT !.data[k] = <<>>, !.pre[k] = @ + n - have]
\* There's no more to come.
Over(x, k) == x.wr[Other(k)] \/ x.rd[k]
CanSeeEnd(x, k) == Over(x, k) /\ x.data[k] = <<>>
SeeEnd(x, k) == [x EXCEPT !.eof[k] = TRUE]
ReadFails(x, k) == x.dead[k] \/ x.dead[Other(k)]

\* n bytes of b have been written at end k.
CanWrite(x, k, n) ==
    LET o == Other(k)
    IN n >= x.pre[o] /\ (x.eof[o] => n = x.pre[o])
Write(x, k, b, n) ==
    LET o == Other(k)
    IN [x EXCEPT !.data[o] = @ \o SubSeq(b, x.pre[o] + 1, n), !.pre[o] = 0]
WriteFails(x, k) == x.wr[k] \/ x.rd[Other(k)]

\* Whoever wants to read n bytes has to wait.
ReadWaits(x, k, n) == Len(x.data[k]) < n /\ ~Over(x, k) /\ ~x.dead[k]
\* And who wants to write: there's room for some bytes on any link.  Shutting
\* down one direction only doesn't wake writers.
WriteWaits(x, k, rest) ==
    /\ ~x.dead[k] /\ ~x.dead[Other(k)]
    /\ Len(x.data[Other(k)]) + Len(rest) >= 2 \/ x.more[Other(k)]
=============================================================================
