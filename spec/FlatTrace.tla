----------------------------- MODULE FlatTrace -----------------------------
(***************************************************************************)
(* Checks sessions with flat containers.  cs: the containers, by number.   *)
(***************************************************************************)
EXTENDS Flat, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

Bool(b) == IF b THEN 1 ELSE 0

\* What the operation o, on container x, may result in.
OpOk(multi, cs, x, o) ==
    LET s == o.after IN
    CASE o.o = "insert" ->
           /\ Inserted(multi, x, o.e, o.p, s)
           /\ o.ok = Bool(multi = 1 \/ ~Has(x, o.e[1]))
      [] o.o = "insert_hint" -> Inserted(multi, x, o.e, o.p, s)
      [] o.o \in {"insert_all"} -> AllInserted(multi, x, o.es, s)
      [] o.o = "assign" -> MadeOf(multi, x, o.es, s)
      [] o.o = "erase_key" ->
           /\ o.n = Upper(x, o.k) - Lower(x, o.k)
           /\ s = SubSeq(x.s, 1, Lower(x, o.k) - 1) \o
                  SubSeq(x.s, Upper(x, o.k), Len(x.s))
      [] o.o = "erase" ->
           /\ s = SubSeq(x.s, 1, o.from - 1) \o SubSeq(x.s, o.to, Len(x.s))
           /\ o.p = o.from
      [] o.o = "look" ->
           /\ s = x.s
           /\ o.l = Lower(x, o.k) /\ o.e1 = o.l
           /\ o.u = Upper(x, o.k) /\ o.e2 = o.u
           /\ o.n = o.u - o.l
           /\ IF Has(x, o.k) THEN o.f >= o.l /\ o.f < o.u ELSE o.f = Len(x.s) + 1
      [] o.o = "at" ->
           /\ s = x.s
           /\ o.v = IF Has(x, o.k) THEN <<x.s[Lower(x, o.k)][3]>> ELSE <<>>
      [] o.o = "index" ->
           LET p == Lower(x, o.k)
           IN IF Has(x, o.k)
              THEN o.v = x.s[p][3] /\ s = [x.s EXCEPT ![p][3] = o.nv]
              ELSE o.v = 0 /\ s = InsertAtPos(x.s, p, <<o.k, o.t, o.nv>>)
      [] o.o = "copy" -> s = cs[o.from].s
      [] o.o = "swap" -> s = cs[o["with"]].s /\ o.other = x.s
      [] o.o = "clear" -> s = <<>>
      [] o.o = "scan" ->
           /\ s = x.s /\ o.fwd = x.s
           /\ o.back = [i \in 1..Len(x.s) |-> x.s[Len(x.s) + 1 - i]]
           /\ o.n = Len(x.s) /\ o.empty = Bool(x.s = <<>>)
           /\ o.kc = Bool(Less(x.cmp, o.a, o.b)) /\ o.vc = o.kc
      [] o.o = "nothing" -> s = x.s

Step(multi, st, o) ==
    IF ~st.ok THEN st
    ELSE IF o.o = "new"
    THEN LET c == [cmp |-> o.cmp, s |-> o.after]
         IN [ok |-> MadeOf(multi, c, o.es, o.after),
             cs |-> Append(st.cs, c)]
    ELSE LET more == o.o = "copy" /\ o.c > Len(st.cs)
             cs == IF more THEN Append(st.cs, st.cs[o.from]) ELSE st.cs
             x == cs[o.c]
         IN [ok |-> OpOk(multi, cs, x, o) /\ Sorted(multi,
                      IF o.o = "copy" THEN cs[o.from].cmp
                      ELSE IF o.o = "swap" THEN cs[o["with"]].cmp
                      ELSE x.cmp, o.after),
             cs |-> CASE o.o = "copy" -> [cs EXCEPT ![o.c] = cs[o.from]]
                      [] o.o = "swap" -> [cs EXCEPT ![o.c] = cs[o["with"]],
                                                    ![o["with"]] = x]
                      [] OTHER -> [cs EXCEPT ![o.c].s = o.after]]

LineOk(r) == FoldLeft(LAMBDA st, i :
                        LET n == Step(r.multi, st, r.ops[i])
                        IN IF st.ok /\ ~n.ok
                           THEN IF PrintT(<<"operation", i, r.ops[i]>>) THEN n ELSE n
                           ELSE n,
                      [ok |-> TRUE, cs |-> <<>>], [i \in 1..Len(r.ops) |-> i]).ok

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
