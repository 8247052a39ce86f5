------------------------------ MODULE MiscTrace ------------------------------
(***************************************************************************)
(* Checks what errors, results and streams did, a session per line.        *)
(***************************************************************************)
EXTENDS Errors, Streams, SequencesExt, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

Digits == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
RECURSIVE Decimal(_)
Decimal(n) == (IF n < 10 THEN <<>> ELSE Decimal(n \div 10)) \o <<Digits[(n % 10) + 1]>>

\* Linux.
Pending == {115, 114, 106}   \* EINPROGRESS, EALREADY, EISCONN
Again == {11}

\* Messages of exceptions the library makes on its own account are its own.
SameError(x, y) == x.cls = y.cls /\ (x.cls = "invalid_state" \/ x.what = y.what)

StringBytes(s) == Varint(Len(s)) \o s

\* A holder's encoding: presence and value (for void, just presence), a flag,
\* and class name and message of the exception.  Names are compared by length.
NameLength == [unknown_error |-> 13, cancelled |-> 9, data_mismatch |-> 13,
               deadline_exceeded |-> 17, eof |-> 3, internal_error |-> 14,
               invalid_argument |-> 16, invalid_state |-> 13, io_error |-> 8,
               not_implemented |-> 15, not_found |-> 9, out_of_range |-> 12,
               shutting_down |-> 13, unavailable |-> 11, try_again |-> 9,
               custom_error |-> 12, Another |-> 7]
EncodingOk(void, h, b) ==
    LET v == (IF h.val = <<>> THEN <<0>> ELSE <<1>>) \o
             (IF void = 1 \/ h.val = <<>> THEN <<>> ELSE StringBytes(h.val[1]))
        a == Analyze(h.exc)
        n == IF a[1] = "" THEN 0 ELSE NameLength[a[1]]
    IN IF h.exc = NoError THEN b = v \o <<0>>
       ELSE /\ Len(b) = Len(v) + 2 + n + Len(StringBytes(a[2]))
            /\ SubSeq(b, 1, Len(v) + 2) = v \o <<1, n>>
            /\ SubSeq(b, Len(v) + n + 3, Len(b)) = StringBytes(a[2])

HolderStep(void, st, o) ==
    LET a == o.h
        b == 3 - a
        h == st.hs[a]
        put(i, x) == [st EXCEPT !.hs[i] = x]
        agree(g) == o.v = g.v /\ SameError(o.e, g.e)
        fail(ok) == [st EXCEPT !.ok = @ /\ ok]
    IN CASE o.o = "value" -> put(a, [val |-> <<o.val>>, exc |-> NoError])
         [] o.o = "exception" -> put(a, [h EXCEPT !.exc = o.exc])
         [] o.o = "exception_only" -> put(a, [NoResult EXCEPT !.exc = o.exc])
         [] o.o = "reset" -> put(a, NoResult)
         [] o.o = "swap" -> [st EXCEPT !.hs[a] = st.hs[b], !.hs[b] = h]
         [] o.o = "send" ->
              [put(b, Received(h)) EXCEPT
                  !.ok = @ /\ o.e = NoError /\ EncodingOk(void, h, o.bytes)]
         [] o.o = "get" ->
              fail(/\ agree(Got(h))
                   /\ o.has = IF HasResult(h) THEN 1 ELSE 0
                   /\ o.bool = o.has)
         [] o.o = "get_or" ->
              fail(IF HasResult(h) THEN agree(Got(h))
                   ELSE o.v = o.val /\ o.e = NoError)

HolderOk(r) ==
    FoldLeft(LAMBDA st, o : HolderStep(r.void, st, o),
             [ok |-> TRUE, hs |-> <<NoResult, NoResult>>], r.ops).ok

ThrowOk(r) == r.v = <<>> /\ r.e = Rebuild(r.type, r.what)
AnalyzeOk(r) == <<r.type, r.what>> = Analyze(r.exc)
IoOk(r) == CASE r.code \in Pending -> r.e = NoError
             [] r.code \in Again -> r.e.cls = "try_again"
             [] OTHER -> r.e = Error("io_error", r.what \o <<58, 32>> \o Decimal(r.code))
CodeOk(r) == r.e = Error("Another", r.what \o <<58, 32>> \o Decimal(r.code))

InStep(st, o) ==
    LET s == st.s
        also(r, more) ==
            [s |-> r.s, ok |-> st.ok /\ more /\ o.v = r.v /\ o.e.cls = r.e]
    IN CASE o.o = "open" -> LET r == Seek(s, o.n) IN also(r, TRUE)
         [] o.o = "read" -> also(ReadUpTo(s, o.n), o.intact = 1)
         [] o.o = "full" -> also(ReadFully(s, o.n), TRUE)
         [] o.o = "getc" -> also(ReadOne(s), TRUE)
         [] o.o = "seek" -> also(Seek(s, o.n), TRUE)
         [] o.o = "tell" -> [st EXCEPT !.ok = @ /\ o.n = s.at]
InOk(r) ==
    FoldLeft(InStep, [ok |-> TRUE,
                      s |-> [data |-> r.data, at |-> 0, fault |-> r.fault,
                             broken |-> FALSE, kind |-> r.kind]], r.ops).ok

OutStep(st, o) ==
    LET s == st.s
    IN CASE o.o = "flush" ->
              [st EXCEPT !.ok = @ /\ o.e = NoError /\ o.after = s.data]
         [] o.o = "write" ->
              [s |-> [s EXCEPT !.data = o.after,
                               !.broken = @ \/ WriteFails(s, o.d)],
               ok |-> /\ st.ok
                      /\ o.e.cls = (IF WriteFails(s, o.d) THEN "io_error" ELSE "")
                      /\ WriteAll(s, o.d, o.after)]
OutOk(r) ==
    FoldLeft(OutStep, [ok |-> TRUE,
                       s |-> [data |-> r.data, fault |-> r.fault,
                              broken |-> FALSE]], r.ops).ok

LineOk(r) == CASE r.op = "holder" -> HolderOk(r)
               [] r.op = "throw" -> ThrowOk(r)
               [] r.op = "analyze" -> AnalyzeOk(r)
               [] r.op = "io" -> IoOk(r)
               [] r.op = "code" -> CodeOk(r)
               [] r.op = "in" -> InOk(r)
               [] r.op = "out" -> OutOk(r)

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
