----------------------------- MODULE TypeHash ------------------------------
(***************************************************************************)
(* The structure hash of a type: what two programs compare to find out     *)
(* whether they agree about the layout of the data they exchange.          *)
(*                                                                         *)
(* Types are described by records:                                         *)
(*   [k: "sc", n: size, f: family, s: signed]     scalars                  *)
(*   [k: "seq", t] [k: "arr", n, t]               sequences, arrays        *)
(*   [k: "set", m: multi, t] [k: "map", m, t]     associative containers   *)
(*   [k: "tup", ts]  (agg if it's a plain struct) pairs, tuples, structs   *)
(*   [k: "opt", t] [k: "dur"/"tp", num, den]                               *)
(*   [k: "uptr"/"sptr"/"wptr", d: polymorphic, t] pointers                 *)
(*   [k: "cls", c: name]                          classes, see `classes'   *)
(*   [k: "fn", s: const, ts]                      functions (result first)  *)
(* all with a number u identifying the type.  A class is                   *)
(*   [bases, fields, all: sequences of types, ver: custom serialization    *)
(*    version or 0, dynbase: whether the polymorphic root is among the     *)
(*    bases, supers: polymorphic classes it is one of, reg: its name].     *)
(***************************************************************************)
EXTENDS Bytes, Integers

\* All types above have families, as do the parts of classes.
FamArray == 6   FamTuple == 7   FamSeq == 8    FamSet == 9    FamMap == 10
FamOpt == 11    FamDur == 12    FamTp == 13    FamUptr == 14  FamSptr == 15
FamWptr == 16   FamFunction == 17  FamClass == 18  FamBase == 19  FamField == 20
FamCustom == 21 FamSeen == 22

Leaf(family, signed, size) ==
    <<(size \div 256) % 65536, family + 128 * signed + 256 * (size % 256)>>

\* Fold of the parts' hashes.
HAdd(ws) == FoldLeft(LAMBDA a, w : Xor32(TimesFnv(a), w), <<0, 0>>, ws)

\* What's on the way from the root of the type to the part we are looking at,
\* the root first: parts that are on the way to themselves are hashed as
\* references to their position on it, which is what ends recursion.
Pos(seen, e) == SelectInSeq(seen, LAMBDA x : x = e)

Entry(t) == <<"u", t.u>>
TupleEntry(t) == <<"t", [i \in 1..Len(t.ts) |-> t.ts[i].u]>>
PolyRoot == <<"polymorphic root">>

CustomOf(cl) == IF cl.ver = 0 THEN 0 ELSE 1

RECURSIVE Hash(_, _, _)
RECURSIVE NewHash(_, _, _)
BackRef(i) == Leaf(FamSeen, 0, i - 1)

\* The list of a class's bases, or fields.
HashList(classes, entry, ts, root, seen) ==
    IF Pos(seen, entry) > 0 THEN BackRef(Pos(seen, entry))
    ELSE LET s == Append(seen, entry)
             hs == [i \in 1..Len(ts) |-> Hash(classes, ts[i], s)]
             \* The polymorphic root has no bases, fields or anything.
             h0 == HAdd(<<Leaf(FamClass, 0, 0), Leaf(FamBase, 0, 0), <<0, 0>>,
                          Leaf(FamField, 0, 0), <<0, 0>>,
                          Leaf(FamCustom, 0, 0)>>)
         IN HAdd((IF root THEN <<h0>> ELSE <<>>) \o hs)

\* Fields are one step further away.
HashFields(classes, c, ts, seen) ==
    LET entry == <<"fields", IF ts = <<>> THEN "" ELSE c>> IN
    IF Pos(seen, entry) > 0 THEN BackRef(Pos(seen, entry))
    ELSE LET s == Append(seen, entry)
         IN HAdd([i \in 1..Len(ts) |->
                    Hash(classes, ts[i], Append(s, <<"field", c, i>>))])

Hash(classes, t, seen) ==
    IF Pos(seen, Entry(t)) > 0 THEN BackRef(Pos(seen, Entry(t)))
    ELSE NewHash(classes, t, Append(seen, Entry(t)))

Abs(x) == IF x < 0 THEN 0 - x ELSE x

NewHash(classes, t, s) ==
    CASE t.k = "sc" -> Leaf(t.f, t.s, t.n)
      [] t.k = "seq" -> HAdd(<<Leaf(FamSeq, 0, 0), Hash(classes, t.t, s)>>)
      [] t.k = "arr" -> HAdd(<<Leaf(FamArray, 0, t.n), Hash(classes, t.t, s)>>)
      [] t.k = "set" -> HAdd(<<Leaf(FamSet, t.m, 0), Hash(classes, t.t, s)>>)
      [] t.k = "map" -> HAdd(<<Leaf(FamMap, t.m, 0), Hash(classes, t.t, s)>>)
      [] t.k = "opt" -> HAdd(<<Leaf(FamOpt, 0, 0), Hash(classes, t.t, s)>>)
      [] t.k = "uptr" -> HAdd(<<Leaf(FamUptr, 0, 0), Hash(classes, t.t, s)>>)
      [] t.k = "sptr" -> HAdd(<<Leaf(FamSptr, 0, 0), Hash(classes, t.t, s)>>)
      [] t.k = "wptr" -> HAdd(<<Leaf(FamWptr, 0, 0), Hash(classes, t.t, s)>>)
      [] t.k = "dur" -> Leaf(FamDur, IF t.den > t.num THEN 1 ELSE 0,
                             Abs(t.den - t.num))
      [] t.k = "tp" -> Leaf(FamTp, IF t.den > t.num THEN 1 ELSE 0,
                            Abs(t.den - t.num))
      [] t.k = "tup" ->
           LET tup(s2) == HAdd(<<Leaf(FamTuple, 0, Len(t.ts))>> \o
                               [i \in 1..Len(t.ts) |->
                                  Hash(classes, t.ts[i], s2)])
           IN IF "agg" \notin DOMAIN t THEN tup(s)
              ELSE IF Pos(s, TupleEntry(t)) > 0
              THEN BackRef(Pos(s, TupleEntry(t)))
              ELSE tup(Append(s, TupleEntry(t)))
      \* What a function returns and takes, and whether it is const.
      [] t.k = "fn" ->
           HAdd(<<Leaf(FamFunction, t.s, 0)>> \o
                [i \in 1..Len(t.ts) |-> Hash(classes, t.ts[i], s)])
      [] t.k = "cls" ->
           LET cl == classes[t.c]
               nb == Len(cl.bases) + cl.dynbase
               nf == Len(cl.fields)
               be == <<"bases", cl.dynbase,
                       [i \in 1..Len(cl.bases) |-> cl.bases[i].u]>>
           IN HAdd(<<Leaf(FamClass, 0, nb + nf + CustomOf(cl)),
                     Leaf(FamBase, 0, nb),
                     HashList(classes, be, cl.bases, cl.dynbase = 1, s),
                     Leaf(FamField, 0, nf),
                     HashFields(classes, t.c, cl.fields, s),
                     Leaf(FamCustom, 0, CustomOf(cl))>>)

TypeHash(classes, t) == Bytes32(Hash(classes, t, <<>>))
=============================================================================
