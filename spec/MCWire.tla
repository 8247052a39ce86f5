------------------------------- MODULE MCWire ------------------------------
(***************************************************************************)
(* The encoding itself, for a small universe of types: every value of each  *)
(* (up to MaxLen elements), alone and two in a row, all heaps of up to      *)
(* MaxHeap objects, and all short inputs.                                   *)
(***************************************************************************)
EXTENDS Wire
CONSTANTS MaxLen, MaxHeap, MaxIn, Alphabet

Bool == [k |-> "sc", n |-> 1, f |-> 1, s |-> 0, u |-> 1]
U16 == [k |-> "sc", n |-> 2, f |-> 3, s |-> 0, u |-> 2]
U8 == [k |-> "sc", n |-> 1, f |-> 3, s |-> 0, u |-> 3]
Node == [k |-> "cls", c |-> "Node", u |-> 4]
Sub == [k |-> "cls", c |-> "Sub", u |-> 5]
Plain == [k |-> "cls", c |-> "Plain", u |-> 6]
SNode == [k |-> "sptr", d |-> 1, t |-> Node, pu |-> 0, u |-> 7]
SSub == [k |-> "sptr", d |-> 1, t |-> Sub, pu |-> 0, u |-> 8]
WNode == [k |-> "wptr", d |-> 1, t |-> Node, pu |-> 0, u |-> 9]
SBool == [k |-> "sptr", d |-> 0, t |-> Bool, pu |-> 1, u |-> 10]
UNode == [k |-> "uptr", d |-> 1, t |-> Node, u |-> 11]
Seq_(t, u) == [k |-> "seq", t |-> t, u |-> u]
Opt_(t, u) == [k |-> "opt", t |-> t, u |-> u]
Uptr_(t, u) == [k |-> "uptr", d |-> 0, t |-> t, u |-> u]
Arr_(n, t, u) == [k |-> "arr", n |-> n, t |-> t, u |-> u]
Tup_(ts, u) == [k |-> "tup", ts |-> ts, u |-> u]
Set_(m, t, u) == [k |-> "set", m |-> m, t |-> t, u |-> u]
Map_(m, a, b, u) == [k |-> "map", m |-> m, t |-> Tup_(<<a, b>>, u + 1), u |-> u]

Types == <<Bool, U16, Plain, Seq_(Bool, 20), Seq_(U16, 21), Arr_(2, Bool, 22),
           Opt_(Bool, 23), Opt_(Opt_(Bool, 23), 24), Uptr_(U16, 25),
           Tup_(<<Bool, U16>>, 26), Set_(0, Bool, 27), Set_(1, U16, 28),
           Map_(0, Bool, Bool, 30), Map_(1, Bool, U16, 32),
           Seq_(Seq_(Bool, 20), 34), Seq_(Opt_(Bool, 23), 35),
           Opt_(Seq_(Bool, 20), 36), Tup_(<<Seq_(Bool, 20), Opt_(Bool, 23)>>, 37),
           Set_(0, Seq_(Bool, 20), 38), Map_(0, Opt_(Bool, 23), Seq_(Bool, 20), 39),
           Arr_(2, Seq_(Bool, 20), 41),
           \* With pointers.
           SNode, SSub, WNode, SBool, UNode, Seq_(SNode, 42), Tup_(<<WNode, SSub>>, 43),
           Seq_(SBool, 44), Tup_(<<UNode, SNode>>, 45), Tup_(<<SBool, SNode>>, 46)>>
FirstPointer == 22
IsPointer(t) == t >= FirstPointer

Class(bases, fields, supers, ver) ==
    [bases |-> bases, fields |-> fields, all |-> bases \o fields, ver |-> ver,
     dynbase |-> IF supers # <<>> /\ bases = <<>> THEN 1 ELSE 0, supers |-> supers, u |-> 0]
Classes == [Node |-> Class(<<>>, <<Bool, SNode>>, <<"Node">>, 0),
            Sub |-> Class(<<Node>>, <<SBool>>, <<"Node", "Sub">>, 0),
            Plain |-> Class(<<>>, <<Bool, Opt_(Bool, 23)>>, <<>>, 0)]
Names == [Node |-> <<1>>, Sub |-> <<2, 3>>]
Hashes == [Node |-> <<0, 1, 2, 3>>, Sub |-> <<1, 1, 1, 1>>]
Env(be, in) == [types |-> Types, classes |-> Classes, names |-> Names,
                hashes |-> Hashes, be |-> be, in |-> in]

\* Values; h: what the heap holds, by index ("Node", "Sub", "Bool").
Upto(S, n) == UNION {[1..m -> S] : m \in 0..n}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
RECURSIVE Values(_, _)
Points(t, h) == {0} \union {i \in 1..Len(h) :
                   IF t.d = 0 THEN h[i] = "Bool"
                   ELSE h[i] = "Sub" \/ (h[i] = "Node" /\ t.t.c = "Node")}
Parts(ts, h) == {v \in [1..Len(ts) -> UNION {Values(ts[i], h) : i \in 1..Len(ts)}] :
                   \A i \in 1..Len(ts) : v[i] \in Values(ts[i], h)}
Of(c, h) == IF c = "Node" THEN {<<b, p>> : b \in {0, 1}, p \in Points(SNode, h)}
            ELSE {<<<<b, p>>, q>> : b \in {0, 1}, p \in Points(SNode, h), q \in Points(SBool, h)}
Values(t, h) ==
    CASE t.k = "sc" -> IF t.f = 1 THEN {0, 1}
                       ELSE IF t.n = 1 THEN {0, 255} ELSE {<<0, 1>>, <<255, 2>>}
      [] t.k = "seq" -> Upto(Values(t.t, h), MaxLen)
      [] t.k = "arr" -> [1..t.n -> Values(t.t, h)]
      [] t.k = "set" -> {s \in Upto(Values(t.t, h), MaxLen) : t.m = 1 \/ Distinct(s)}
      [] t.k = "map" ->
           {s \in Upto({<<a, b>> : a \in Values(t.t.ts[1], h), b \in Values(t.t.ts[2], h)}, MaxLen) :
              t.m = 1 \/ Distinct([i \in 1..Len(s) |-> s[i][1]])}
      [] t.k = "tup" -> IF Len(t.ts) # 2 THEN {}
                        ELSE {<<a, b>> : a \in Values(t.ts[1], h), b \in Values(t.ts[2], h)}
      [] t.k = "cls" -> IF t.c = "Plain"
                        THEN {<<a, b>> : a \in {0, 1}, b \in {<<>>, <<0>>, <<1>>}}
                        ELSE Of(t.c, h)
      [] t.k = "opt" -> {<<>>} \union {<<v>> : v \in Values(t.t, h)}
      [] t.k = "uptr" ->
           {<<>>} \union IF t.d = 0 THEN {<<v>> : v \in Values(t.t, h)}
                         ELSE {<<[c |-> "Node", v |-> v]>> : v \in Of("Node", h)}
                              \union {<<[c |-> "Sub", v |-> v]>> : v \in Of("Sub", h)}
      [] t.k \in {"sptr", "wptr"} -> Points(t, h)
Kinds == {"Node", "Sub", "Bool"}
Objects(c, h) == IF c = "Bool" THEN {[c |-> "", v |-> 0], [c |-> "", v |-> 1]}
                 ELSE {[c |-> c, v |-> v] : v \in Of(c, h)}

VARIABLES be, items, kinds, heap, vals, in
vars == <<be, items, kinds, heap, vals, in>>
Item(t, vs) == [t |-> t, vs |-> vs]

Init ==
    /\ be \in {0, 1}
    /\ \E t \in 1..Len(Types), vs \in {0, 1} : items = <<Item(t, vs)>>
    /\ kinds \in IF IsPointer(items[1].t) THEN Upto(Kinds, MaxHeap) ELSE {<<>>}
    /\ heap = <<>> /\ vals = <<>> /\ in = <<>>

\* Heaps are filled, then values chosen.
Fill == /\ Len(heap) < Len(kinds)
        /\ \E o \in Objects(kinds[Len(heap) + 1], kinds) : heap' = Append(heap, o)
        /\ UNCHANGED <<be, items, kinds, vals, in>>
Choose == /\ Len(heap) = Len(kinds) /\ vals = <<>>
          /\ \E v \in Values(Types[items[1].t], kinds) : vals' = <<v>>
          /\ UNCHANGED <<be, items, kinds, heap, in>>
\* Another value after the first.
More == /\ Len(vals) = 1 /\ Len(items) = 1
        /\ \E t \in IF IsPointer(items[1].t) THEN {22, 25} ELSE {1, 4, 8, 13} :
             /\ items' = Append(items, Item(t, 0))
             /\ \E v \in Values(Types[t], kinds) : vals' = Append(vals, v)
        /\ UNCHANGED <<be, kinds, heap, in>>
\* Or input that may not be the encoding of anything.
Feed == /\ vals = <<>> /\ kinds = <<>> /\ items[1].vs = 0 /\ Len(in) < MaxIn
        /\ \E b \in Alphabet : in' = Append(in, b)
        /\ UNCHANGED <<be, items, kinds, heap, vals>>
Next == (in = <<>> /\ (Fill \/ Choose \/ More)) \/ Feed
Spec == Init /\ [][Next]_vars

Out == EncItems(Env(be, <<>>), heap, items, vals)
Decoded(bytes) == DecItems(Env(be, bytes), items)
Tail_ == <<0, 1, 255>>

\* What was encoded is decoded to the same, whatever follows it.
RoundTrip ==
    vals # <<>> =>
      LET d == Decoded(Out \o Tail_)
      IN /\ d.st.e = ""
         /\ d.st.p = Len(Out) + 1
         /\ MatchItems(Env(be, <<>>), heap, d.st.heap, items, vals, d.v)
\* It's never complete with something missing.
Incomplete ==
    vals # <<>> =>
      \A n \in 0..(Len(Out) - 1) : Decoded(SubSeq(Out, 1, n)).st.e \in {"eof"}
\* The same is written again for what was read.
Again ==
    vals # <<>> =>
      LET d == Decoded(Out) IN EncItems(Env(be, <<>>), d.st.heap, items, d.v) = Out
\* Every input means something or is in error, for a reason, and never needs
\* more than what is there.  What it means can be encoded again.
AnyInput ==
    in # <<>> =>
      LET d == Decoded(in)
          again == EncItems(Env(be, <<>>), d.st.heap, items, d.v)
          e == DecItems(Env(be, again), items)
      IN /\ d.st.e \in {"", "eof", "ub", "data_mismatch", "not_found"}
         /\ d.st.p <= Len(in) + 1
         /\ d.st.e = "" =>
              /\ Len(again) <= d.st.p - 1
              /\ e.st.e = ""
              /\ e.st.p = Len(again) + 1
              /\ e.v = d.v
\* More input never makes an error of another kind go away, nor changes what
\* was decoded already.
Stable ==
    in # <<>> =>
      LET d == Decoded(SubSeq(in, 1, Len(in) - 1))
          e == Decoded(in)
      IN CASE d.st.e = "" -> e.st.e = "" /\ e.v = d.v /\ e.st.p = d.st.p
           [] d.st.e = "eof" -> TRUE
           [] d.st.e = "ub" -> TRUE
           [] OTHER -> e.st.e = d.st.e
=============================================================================
