----------------------------- MODULE WireTrace -----------------------------
(***************************************************************************)
(* Checks what the encoders and decoders did against Wire.  The first line *)
(* of the trace describes the types; each other line is one session: an    *)
(* encoder or decoder, used for a few values.                              *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Types == Trace[1].types
Classes == Trace[1].classes
Names == [c \in DOMAIN Classes |-> Classes[c].name]
PolyNames == {c \in DOMAIN Classes : Len(Names[c]) > 0}
Hashes == [c \in PolyNames |->
             TypeHash(Classes, [k |-> "cls", c |-> c, u |-> Classes[c].u])]

Env(be, in) == [types |-> Types, classes |-> Classes,
                names |-> [c \in PolyNames |-> Names[c]],
                hashes |-> Hashes, be |-> be, in |-> in]

EncOk(r) ==
    EncItems(Env(r.be, <<>>), r.heap, r.items, r.vals) = r.out

\* What the decoder must have made of the input: the values it got or an
\* error, after how many values, and how much of the input it took.
DecOk(r) ==
    LET env == Env(r.be, r.in)
        d == DecItems(env, r.items)
    IN \/ d.st.e = "ub"
       \/ /\ d.st.e # ""
          /\ r.res = d.st.e
          /\ r.done = Len(d.v)
       \/ /\ d.st.e = ""
          /\ r.res = "ok"
          /\ r.done = Len(r.items)
          /\ r.pos = d.st.p - 1
          /\ MatchItems(env, d.st.heap, r.heap, r.items, d.v, r.vals)

\* Decoding what was encoded results in the same values, takes all of it and
\* nothing of what follows.
RoundTripOk(r) ==
    /\ r.res = "ok"
    /\ r.pos = r.olen
    /\ MatchItems(Env(r.be, r.in), r.oheap, r.heap, r.items, r.ovals, r.vals)

\* An encoding with something missing is never taken for complete.
TruncationOk(r) == r.res # "ok"

HashOk(r) == TypeHash(Classes, Types[r.t]) = r.h

LineOk(r) ==
    CASE r.op = "types" -> TRUE
      [] r.op = "hash" -> HashOk(r)
      [] r.op = "enc" -> EncOk(r)
      [] r.op = "dec" ->
           /\ DecOk(r)
           /\ "ovals" \in DOMAIN r => RoundTripOk(r)
           /\ "trunc" \in DOMAIN r => TruncationOk(r)

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
