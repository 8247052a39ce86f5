------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The serialized form of values, and how it is read back.                 *)
(*                                                                         *)
(* Values, for the types of TypeHash:                                      *)
(*   scalars     one byte as a number, more as a little endian sequence    *)
(*   seq, arr, set, map, tup    sequences of values (map: of pairs)        *)
(*   opt, uptr   <<>> or <<v>>; a uptr to a polymorphic class holds        *)
(*               [c: class, v: its parts]                                  *)
(*   dur, tp     eight bytes                                               *)
(*   cls         sequence of the bases, fields and custom parts            *)
(*   sptr, wptr  0 (null) or an index into the heap, a sequence of         *)
(*               [c: class (or ""), v]                                     *)
(* env holds the classes and the byte order (be).                          *)
(***************************************************************************)
EXTENDS TypeHash, TLC, FiniteSets, Functions

Scalar(t) == t.k = "sc"

----------------------------------------------------------------------------
(* Encoding.  st: what was written (out), the shared objects (objs, heap   *)
(* indices) and the classes (cls) written so far, in order: the first time *)
(* one is met, it is written down, later on just its number.               *)

EncStart == [out |-> <<>>, objs |-> <<>>, cls |-> <<>>]

Put(st, bytes) == [st EXCEPT !.out = @ \o bytes]

EncScalar(env, t, v) ==
    IF t.n = 1 THEN <<v>> ELSE IF env.be = 1 THEN Rev(v) ELSE v

RECURSIVE Enc(_, _, _, _, _)

\* Elements, without their number.
EncAll(env, heap, t, vs, st) ==
    IF Scalar(t)
    THEN IF t.n = 1 THEN Put(st, vs)
         ELSE Put(st, [i \in 1..(t.n * Len(vs)) |->
                LET v == vs[(i - 1) \div t.n + 1]
                    j == (i - 1) % t.n
                IN IF env.be = 1 THEN v[t.n - j] ELSE v[j + 1]])
    ELSE FoldLeft(LAMBDA s, v : Enc(env, heap, t, v, s), st, vs)

EncEach(env, heap, ts, vs, st) ==
    FoldLeft(LAMBDA s, i : Enc(env, heap, ts[i], vs[i], s), st,
             [i \in 1..Len(ts) |-> i])

\* An object we have a pointer to.
EncObject(env, heap, p, o, st) ==
    IF p.d = 0 THEN Enc(env, heap, p.t, o.v, st)
    ELSE LET i == SelectInSeq(st.cls, LAMBDA c : c = o.c)
             cl == env.classes[o.c]
             name == env.names[o.c]
             h == env.hashes[o.c]
             st2 == IF i > 0 THEN Put(st, Varint(i - 1))
                    ELSE [Put(st, Varint(Len(st.cls)) \o
                                  Varint(Len(name)) \o name \o
                                  (IF env.be = 1 THEN Rev(h) ELSE h))
                          EXCEPT !.cls = Append(@, o.c)]
         IN EncEach(env, heap, cl.all, o.v, st2)

Enc(env, heap, t, v, st) ==
    CASE t.k = "sc" -> Put(st, EncScalar(env, t, v))
      [] t.k \in {"seq", "set", "map"} ->
           EncAll(env, heap, t.t, v, Put(st, Varint(Len(v))))
      [] t.k = "arr" -> EncAll(env, heap, t.t, v, st)
      [] t.k = "tup" -> EncEach(env, heap, t.ts, v, st)
      [] t.k = "cls" -> EncEach(env, heap, env.classes[t.c].all, v, st)
      [] t.k \in {"dur", "tp"} -> Put(st, IF env.be = 1 THEN Rev(v) ELSE v)
      [] t.k = "opt" ->
           IF v = <<>> THEN Put(st, <<0>>)
           ELSE Enc(env, heap, t.t, v[1], Put(st, <<1>>))
      [] t.k = "uptr" ->
           IF v = <<>> THEN Put(st, <<0>>)
           ELSE EncObject(env, heap, t,
                          IF t.d = 0 THEN [c |-> "", v |-> v[1]] ELSE v[1],
                          Put(st, <<1>>))
      [] t.k \in {"sptr", "wptr"} ->
           IF v = 0 THEN Put(st, <<0>>)
           ELSE LET i == SelectInSeq(st.objs, LAMBDA o : o = v)
                IN IF i > 0 THEN Put(st, Varint(i))
                   ELSE EncObject(env, heap, t, heap[v],
                          [Put(st, Varint(Len(st.objs) + 1))
                           EXCEPT !.objs = Append(@, v)])

EncItem(env, heap, item, v, st) ==
    LET t == env.types[item.t]
        h == TypeHash(env.classes, t)
    IN Enc(env, heap, t, v,
           IF item.vs = 1 THEN Put(st, IF env.be = 1 THEN Rev(h) ELSE h)
           ELSE st)

EncItems(env, heap, items, vals) ==
    FoldLeft(LAMBDA s, i : EncItem(env, heap, items[i], vals[i], s), EncStart,
             [i \in 1..Len(items) |-> i]).out

----------------------------------------------------------------------------
(* Decoding.  st: next position (p), objects (heap) and classes (cls) seen *)
(* so far, and the first error (e, "" if none).  A result is [v, st].      *)
(* The error "ub" is for inputs whose meaning isn't defined (a boolean     *)
(* that's neither 0 nor 1, a class name with zero bytes in it).            *)

DecStart == [p |-> 1, heap |-> <<>>, cls |-> <<>>, e |-> ""]
Fail(st, e) == [v |-> <<>>, st |-> [st EXCEPT !.e = e]]

RECURSIVE Dec(_, _, _)

\* n raw bytes.
DecBytes(env, n, st) ==
    IF n > Len(env.in) - st.p + 1 THEN Fail(st, "eof")
    ELSE [v |-> SubSeq(env.in, st.p, st.p + n - 1),
          st |-> [st EXCEPT !.p = @ + n]]

DecWord(env, n, st) ==
    LET r == DecBytes(env, n, st)
    IN IF r.st.e # "" \/ env.be = 0 THEN r ELSE [r EXCEPT !.v = Rev(@)]

DecVarint(env, st) ==
    LET r == ReadVarint(env.in, st.p)
    IN [v |-> r.n, st |-> [st EXCEPT !.p = r.p, !.e = r.e]]

BadBool(t, v) == t.f = 1 /\ v > 1

DecScalar(env, t, st) ==
    LET r == DecWord(env, t.n, st)
    IN IF r.st.e # "" THEN r
       ELSE IF t.n > 1 THEN r
       ELSE IF BadBool(t, r.v[1]) THEN Fail(st, "ub")
       ELSE [r EXCEPT !.v = r.v[1]]

\* Continues after r with the element e.
Then(r, e) == [v |-> Append(r.v, e.v), st |-> e.st]

\* n elements.
DecN(env, t, n, st) ==
    IF Scalar(t)
    THEN LET left == Len(env.in) - st.p + 1
             all == n <= left \div t.n
             b(i, j) == env.in[st.p + (i - 1) * t.n + j]
         IN IF ~all
            THEN IF t.f = 1 /\ \E i \in st.p..Len(env.in) : env.in[i] > 1
                 THEN Fail(st, "ub") ELSE Fail(st, "eof")
            ELSE IF t.n = 1
            THEN LET v == SubSeq(env.in, st.p, st.p + n - 1)
                 IN IF t.f = 1 /\ \E i \in 1..n : v[i] > 1 THEN Fail(st, "ub")
                    ELSE [v |-> v, st |-> [st EXCEPT !.p = @ + n]]
            ELSE [v |-> [i \in 1..n |-> [j \in 1..t.n |->
                            b(i, IF env.be = 1 THEN t.n - j ELSE j - 1)]],
                  st |-> [st EXCEPT !.p = @ + n * t.n]]
    ELSE \* Every element takes some input, so there's no point in going on
         \* for long once it ends.
         LET left == Len(env.in) - st.p + 2
             m == IF n > left THEN left ELSE n
         IN FoldLeft(LAMBDA r, i :
                       IF r.st.e # "" THEN r
                       ELSE Then(r, Dec(env, t, r.st)),
                     [v |-> <<>>, st |-> st], [i \in 1..m |-> i])

DecEach(env, ts, st) ==
    FoldLeft(LAMBDA r, t : IF r.st.e # "" THEN r
                           ELSE Then(r, Dec(env, t, r.st)),
             [v |-> <<>>, st |-> st], ts)

DecSized(env, t, st) ==
    LET n == DecVarint(env, st)
    IN IF n.st.e # "" THEN n ELSE DecN(env, t, n.v, n.st)

\* Presence flag, followed by something if it's set.
DecMaybe(env, st, F(_)) ==
    LET b == DecBytes(env, 1, st)
    IN IF b.st.e # "" THEN b
       ELSE IF b.v[1] = 0 THEN [b EXCEPT !.v = <<>>]
       ELSE IF b.v[1] > 1 THEN Fail(st, "ub")
       ELSE LET r == F(b.st) IN [r EXCEPT !.v = <<@>>]

\* The class of a polymorphic object; also [c].
DecClass(env, t, st) ==
    LET id == DecVarint(env, st)
        known == id.v < Len(st.cls)
        len == DecVarint(env, id.st)
        name == DecBytes(env, len.v, len.st)
        hash == DecWord(env, 4, name.st)
        is(c) == env.names[c] = name.v
        found == \E c \in DOMAIN env.names : is(c)
        c == CHOOSE x \in DOMAIN env.names : is(x)
        fits(x) == \E i \in 1..Len(env.classes[x].supers) :
                     env.classes[x].supers[i] = t.t.c
        check(x, s) == IF fits(x) THEN [v |-> x, st |-> s]
                       ELSE Fail(s, "data_mismatch")
    IN IF id.st.e # "" THEN id
       ELSE IF id.v > Len(st.cls) THEN Fail(id.st, "data_mismatch")
       ELSE IF known THEN check(st.cls[id.v + 1], id.st)
       ELSE IF len.st.e # "" THEN len
       ELSE IF name.st.e # "" THEN name
       ELSE IF hash.st.e # "" THEN hash
       ELSE IF \E i \in 1..Len(name.v) : name.v[i] = 0 THEN Fail(st, "ub")
       ELSE IF ~found THEN Fail(hash.st, "not_found")
       ELSE IF hash.v # env.hashes[c] THEN Fail(hash.st, "data_mismatch")
       ELSE check(c, [hash.st EXCEPT !.cls = Append(@, c)])

\* The object itself, [c, v].  at: where to leave it in the heap (or 0).
DecObject(env, t, st, at) ==
    LET cl == DecClass(env, t, st)
        begun == IF at = 0 THEN cl.st
                 ELSE [cl.st EXCEPT !.heap[at].c = cl.v]
        parts == DecEach(env, env.classes[cl.v].all, begun)
        plain == Dec(env, t.t, st)
    IN IF t.d = 0 THEN [plain EXCEPT !.v = [c |-> "", v |-> @]]
       ELSE IF cl.st.e # "" THEN cl
       ELSE [parts EXCEPT !.v = [c |-> cl.v, v |-> @]]

DecShared(env, t, st) ==
    LET id == DecVarint(env, st)
        n == Len(st.heap)
        o == st.heap[id.v]
        compatible ==
            /\ o.pu = t.pu
            /\ t.d = 1 => \E i \in 1..Len(env.classes[o.c].supers) :
                            env.classes[o.c].supers[i] = t.t.c
        st2 == [id.st EXCEPT !.heap = Append(@, [c |-> "", v |-> <<>>,
                                                 pu |-> t.pu])]
        r == DecObject(env, t, st2, n + 1)
    IN IF id.st.e # "" THEN id
       ELSE IF id.v = 0 THEN id
       ELSE IF id.v > n + 1 THEN Fail(id.st, "data_mismatch")
       ELSE IF id.v <= n
       THEN IF compatible THEN id ELSE Fail(id.st, "data_mismatch")
       ELSE IF r.st.e # "" THEN r
       ELSE [v |-> n + 1, st |-> [r.st EXCEPT !.heap[n + 1] =
                                    [c |-> r.v.c, v |-> r.v.v, pu |-> t.pu]]]

Dec(env, t, st) ==
    CASE t.k = "sc" -> DecScalar(env, t, st)
      [] t.k \in {"seq", "set", "map"} -> DecSized(env, t.t, st)
      [] t.k = "arr" -> DecN(env, t.t, t.n, st)
      [] t.k = "tup" -> DecEach(env, t.ts, st)
      [] t.k = "cls" -> DecEach(env, env.classes[t.c].all, st)
      [] t.k \in {"dur", "tp"} -> DecWord(env, 8, st)
      [] t.k = "opt" -> DecMaybe(env, st, LAMBDA s : Dec(env, t.t, s))
      [] t.k = "uptr" ->
           DecMaybe(env, st, LAMBDA s :
             LET r == DecObject(env, t, s, 0)
             IN IF r.st.e # "" \/ t.d = 1 THEN r ELSE [r EXCEPT !.v = r.v.v])
      [] t.k \in {"sptr", "wptr"} -> DecShared(env, t, st)

DecItem(env, item, st) ==
    LET t == env.types[item.t]
        h == DecWord(env, 4, st)
    IN IF item.vs = 0 THEN Dec(env, t, st)
       ELSE IF h.st.e # "" THEN h
       ELSE IF h.v # TypeHash(env.classes, t) THEN Fail(h.st, "data_mismatch")
       ELSE Dec(env, t, h.st)

\* Values decoded, up to the first one in error.
DecItems(env, items) ==
    FoldLeft(LAMBDA r, item :
               IF r.st.e # "" THEN r
               ELSE LET d == DecItem(env, item, r.st)
                    IN IF d.st.e # "" THEN [r EXCEPT !.st = d.st]
                       ELSE Then(r, d),
             [v |-> <<>>, st |-> DecStart], items)

----------------------------------------------------------------------------
(* When two values are the same.  Heap indices are just names: a bijection *)
(* between objects has to exist (m, pairs of indices).                     *)

\* A canonical form for values without pointers.
RECURSIVE Norm(_, _, _)
NormEach(env, ts, vs) == [i \in 1..Len(ts) |-> Norm(env, ts[i], vs[i])]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Bag(s) == {<<x, Count(s, x)>> : x \in Range(s)}
\* The first value given to a key is the one that counts.
\* The same values for each key, in the same order.
SameOrder(a, b) ==
    \A k \in {p[1] : p \in Range(a)} :
       SelectSeq(a, LAMBDA p : p[1] = k) = SelectSeq(b, LAMBDA p : p[1] = k)
FirstOfEach(ps) == SelectSeq([i \in 1..Len(ps) |->
                      IF \E j \in 1..(i - 1) : ps[j][1] = ps[i][1]
                      THEN <<>> ELSE <<ps[i]>>], LAMBDA x : x # <<>>)
Norm(env, t, v) ==
    CASE t.k = "sc" -> v
      [] t.k \in {"dur", "tp"} -> v
      [] t.k \in {"seq", "arr"} ->
           IF Scalar(t.t) THEN v
           ELSE [i \in 1..Len(v) |-> Norm(env, t.t, v[i])]
      [] t.k = "tup" -> NormEach(env, t.ts, v)
      [] t.k = "cls" -> NormEach(env, env.classes[t.c].all, v)
      [] t.k \in {"opt", "uptr"} ->
           IF v = <<>> THEN v ELSE <<Norm(env, t.t, v[1])>>
      [] t.k = "set" ->
           LET s == [i \in 1..Len(v) |-> Norm(env, t.t, v[i])]
           IN IF t.m = 1 THEN Bag(s) ELSE Range(s)
      [] t.k = "map" ->
           LET s == [i \in 1..Len(v) |-> Norm(env, t.t, v[i])]
           IN IF t.m = 1 THEN Bag(s)
              ELSE {x[1] : x \in Range(FirstOfEach(s))}

Bad == [ok |-> FALSE, m |-> {}]
Good(m) == [ok |-> TRUE, m |-> m]

\* x, y: [heap].  a, b: values of type t in each.
RECURSIVE Match(_, _, _, _, _, _, _)
MatchEach(env, x, y, ts, a, b, m) ==
    IF Len(a) # Len(b) \/ Len(a) # Len(ts) THEN Bad
    ELSE FoldLeft(LAMBDA r, i : IF ~r.ok THEN r
                                ELSE Match(env, x, y, ts[i], a[i], b[i], r.m),
                  Good(m), [i \in 1..Len(ts) |-> i])
MatchObject(env, x, y, t, a, b, m) ==
    IF t.d = 0 THEN Match(env, x, y, t.t, a.v, b.v, m)
    ELSE IF a.c # b.c THEN Bad
    ELSE MatchEach(env, x, y, env.classes[a.c].all, a.v, b.v, m)
Match(env, x, y, t, a, b, m) ==
    CASE t.k \in {"sc", "dur", "tp"} -> IF a = b THEN Good(m) ELSE Bad
      [] t.k \in {"seq", "arr"} ->
           IF Len(a) # Len(b) THEN Bad
           ELSE IF Scalar(t.t) THEN IF a = b THEN Good(m) ELSE Bad
           ELSE MatchEach(env, x, y, [i \in 1..Len(a) |-> t.t], a, b, m)
      [] t.k = "tup" -> MatchEach(env, x, y, t.ts, a, b, m)
      [] t.k = "cls" -> MatchEach(env, x, y, env.classes[t.c].all, a, b, m)
      [] t.k = "opt" ->
           IF (a = <<>>) # (b = <<>>) THEN Bad
           ELSE IF a = <<>> THEN Good(m)
           ELSE Match(env, x, y, t.t, a[1], b[1], m)
      [] t.k = "uptr" ->
           IF (a = <<>>) # (b = <<>>) THEN Bad
           ELSE IF a = <<>> THEN Good(m)
           ELSE IF t.d = 1 THEN MatchObject(env, x, y, t, a[1], b[1], m)
           ELSE Match(env, x, y, t.t, a[1], b[1], m)
      [] t.k = "set" ->
           \* b is what the container holds: nothing twice.
           IF /\ Norm(env, t, a) = Norm(env, t, b)
              /\ t.m = 0 => Cardinality(Norm(env, t, b)) = Len(b)
           THEN Good(m) ELSE Bad
      [] t.k = "map" ->
           IF t.m = 1
           THEN LET na == [i \in 1..Len(a) |-> Norm(env, t.t, a[i])]
                    nb == [i \in 1..Len(b) |-> Norm(env, t.t, b[i])]
                IN IF /\ Norm(env, t, a) = Norm(env, t, b)
                      /\ "o" \in DOMAIN t => (t.o = 1 => SameOrder(na, nb))
                   THEN Good(m) ELSE Bad
           ELSE LET key(p) == Norm(env, t.t.ts[1], p[1])
                    ka == [i \in 1..Len(a) |-> key(a[i])]
                    kb == [i \in 1..Len(b) |-> key(b[i])]
                    first(i) == CHOOSE j \in 1..Len(a) :
                                  /\ ka[j] = kb[i]
                                  /\ \A l \in 1..(j - 1) : ka[l] # kb[i]
                IN IF \/ Range(ka) # Range(kb)
                      \/ Cardinality(Range(kb)) # Len(b)
                   THEN Bad
                   ELSE FoldLeft(LAMBDA r, i :
                          IF ~r.ok THEN r
                          ELSE Match(env, x, y, t.t.ts[2], a[first(i)][2],
                                     b[i][2], r.m),
                          Good(m), [i \in 1..Len(b) |-> i])
      [] t.k \in {"sptr", "wptr"} ->
           IF a = 0 \/ b = 0 THEN IF a = b THEN Good(m) ELSE Bad
           ELSE IF <<a, b>> \in m THEN Good(m)
           ELSE IF \E p \in m : p[1] = a \/ p[2] = b THEN Bad
           ELSE MatchObject(env, x, y, t, x[a], y[b], m \union {<<a, b>>})

MatchItems(env, x, y, items, a, b) ==
    /\ Len(a) = Len(b)
    /\ MatchEach(env, x, y, [i \in 1..Len(a) |-> env.types[items[i].t]],
                 a, b, {}).ok
=============================================================================
