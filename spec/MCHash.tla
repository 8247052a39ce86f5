------------------------------- MODULE MCHash ------------------------------
(***************************************************************************)
(* The structure hashes of many small types: what a peer could have instead *)
(* of a type has another one - or should have.                              *)
(***************************************************************************)
EXTENDS TypeHash, TLC, FiniteSets, Functions

\* Descriptions are told apart by u, made of those of the parts.
Sc(n, f, s) == [k |-> "sc", n |-> n, f |-> f, s |-> s, u |-> <<1, n, f, s>>]
Scalars == {Sc(1, 1, 0), Sc(1, 2, 0), Sc(1, 3, 0), Sc(1, 3, 1), Sc(2, 3, 0), Sc(4, 3, 1),
            Sc(8, 3, 0), Sc(8, 5, 1)}
Few == {Sc(1, 3, 0), Sc(4, 3, 1), Sc(8, 5, 1)}
Unary(t) ==
    {[k |-> "seq", t |-> t, u |-> <<2>> \o t.u],
     [k |-> "arr", n |-> 1, t |-> t, u |-> <<3, 1>> \o t.u],
     [k |-> "arr", n |-> 2, t |-> t, u |-> <<3, 2>> \o t.u],
     [k |-> "set", m |-> 0, t |-> t, u |-> <<4>> \o t.u],
     [k |-> "set", m |-> 1, t |-> t, u |-> <<5>> \o t.u],
     [k |-> "opt", t |-> t, u |-> <<6>> \o t.u],
     [k |-> "uptr", d |-> 0, t |-> t, u |-> <<7>> \o t.u],
     [k |-> "sptr", d |-> 0, t |-> t, pu |-> 0, u |-> <<8>> \o t.u],
     [k |-> "wptr", d |-> 0, t |-> t, pu |-> 0, u |-> <<9>> \o t.u],
     [k |-> "tup", ts |-> <<t>>, u |-> <<10, 1>> \o t.u]}
Tup(a, b) == [k |-> "tup", ts |-> <<a, b>>, u |-> <<10, 2>> \o a.u \o b.u]
Binary(a, b) ==
    {Tup(a, b),
     [k |-> "map", m |-> 0, t |-> Tup(a, b), u |-> <<11>> \o a.u \o b.u],
     [k |-> "map", m |-> 1, t |-> Tup(a, b), u |-> <<12>> \o a.u \o b.u]}
Times == {[k |-> k, num |-> x[1], den |-> x[2], u |-> <<13, IF k = "tp" THEN 1 ELSE 0>> \o x] :
            k \in {"dur", "tp"}, x \in {<<1, 1>>, <<1, 1000>>, <<60, 1>>}}
Layer(S) == UNION {Unary(t) : t \in S}
Layer1 == Layer(Scalars) \union UNION {Binary(a, b) : a \in Scalars, b \in Scalars}
Base == Scalars \union Times \union {[k |-> "tup", ts |-> <<>>, u |-> <<10, 0>>]}
        \union Layer1 \union
        {[k |-> "tup", ts |-> <<a, b, c>>, u |-> <<10, 3>> \o a.u \o b.u \o c.u] :
           a \in Few, b \in Few, c \in Few}

NoClasses == <<>>
HashOf(S) == {TypeHash(NoClasses, t) : t \in S}

VARIABLE done
Init == done = FALSE
Next == UNCHANGED done
Spec == Init /\ [][Next]_done

\* One constructor around scalars: no two have the same hash.
AllDifferent == Cardinality(HashOf(Base)) = Cardinality(Base)
\* Two of them may, though: the hash of what's wrapped in something is just
\* combined with that of the wrapping by exclusive or.  See DESIGN.md.
Nested == {CHOOSE s \in Unary(t) : s.k = "seq" : t \in Layer(Few)}
NestedDifferent == HashOf(Nested) \intersect HashOf(Scalars) = {}
=============================================================================
