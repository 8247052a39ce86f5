-------------------------------- MODULE Flat -------------------------------
(***************************************************************************)
(* Sorted containers: sets, multisets, maps and multimaps with an order    *)
(* of their own.                                                           *)
(*                                                                         *)
(* An element is <<key, tag, value>>: the order only looks at the key, the *)
(* tag tells elements with equivalent keys apart.  A container is          *)
(*   [cmp: its order, s: sequence of elements]                             *)
(* and stays sorted; without multi, no two elements are equivalent.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Functions

\* Orders: 0 ascending, 1 descending, n > 1 by remainder.
Less(cmp, a, b) == CASE cmp = 0 -> a < b
                     [] cmp = 1 -> b < a
                     [] OTHER -> a % cmp < b % cmp
Equiv(cmp, a, b) == ~Less(cmp, a, b) /\ ~Less(cmp, b, a)

Sorted(multi, cmp, s) ==
    \A i \in 1..(Len(s) - 1) :
      IF multi = 1 THEN ~Less(cmp, s[i + 1][1], s[i][1])
      ELSE Less(cmp, s[i][1], s[i + 1][1])

\* Positions of the first element not less than k, and greater than k.
Lower(c, k) == 1 + Cardinality({i \in 1..Len(c.s) : Less(c.cmp, c.s[i][1], k)})
Upper(c, k) == 1 + Cardinality({i \in 1..Len(c.s) : ~Less(c.cmp, k, c.s[i][1])})
Has(c, k) == Lower(c, k) < Upper(c, k)

InsertAtPos(s, p, e) == SubSeq(s, 1, p - 1) \o <<e>> \o SubSeq(s, p, Len(s))

\* Without multi, the element that's there is kept.
Inserted(multi, c, e, p, s) ==       \* e ends up at (or was found at) p
    IF multi = 0 /\ Has(c, e[1])
    THEN s = c.s /\ p = Lower(c, e[1])
    ELSE p >= Lower(c, e[1]) /\ p <= Upper(c, e[1]) /\ s = InsertAtPos(c.s, p, e)

SameElements(s, t) ==
    /\ Len(s) = Len(t)
    /\ \A x \in Range(s) \union Range(t) :
         Cardinality({i \in 1..Len(s) : s[i] = x}) =
         Cardinality({i \in 1..Len(t) : t[i] = x})

\* After many at once.
AllInserted(multi, c, es, s) ==
    /\ Sorted(multi, c.cmp, s)
    /\ IF multi = 1 THEN SameElements(s, c.s \o es)
       ELSE LET all == c.s \o es
            IN SameElements(s,
                 SelectSeq(all, LAMBDA e :
                   \A i \in 1..Len(all) :
                     (Equiv(c.cmp, all[i][1], e[1]) /\ all[i] # e) =>
                        \E j \in 1..(i - 1) : all[j] = e))

\* Made of a sequence: those that are equivalent stay in its order.
MadeOf(multi, c, es, s) ==
    /\ AllInserted(multi, [c EXCEPT !.s = <<>>], es, s)
    /\ \A k \in {e[1] : e \in Range(s)} :
         LET like(t) == SelectSeq(t, LAMBDA e : Equiv(c.cmp, e[1], k))
         IN IF multi = 1 THEN like(s) = like(es) ELSE like(s) = <<like(es)[1]>>
=============================================================================
