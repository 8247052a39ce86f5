------------------------------ MODULE Packets ------------------------------
(***************************************************************************)
(* Packets over streams.                                                   *)
(*                                                                         *)
(* Serial lines, which may lose or damage bytes: the data and its MAC, as  *)
(* COBS, and a zero to end it.  Whatever happened before, reception starts *)
(* anew after each zero.                                                   *)
(* Reliable streams: the data with its length in front.                    *)
(*                                                                         *)
(* A receiver's step takes it from a position of the stream to the next,   *)
(* and results in a packet or an error.                                    *)
(***************************************************************************)
EXTENDS Cobs, FiniteSets
CONSTANT Mac(_),          \* sequence of bytes, for some data
         MacLen

Packet(p, data) == [res |-> "ok", p |-> p, data |-> data]
Error(p, e) == [res |-> e, p |-> p, data |-> <<>>]

\* One that COBS can be used for: what's between the zeros.
OpenPacket(p, raw) ==
    LET d == CobsDecode(raw)
        n == Len(d.data) - MacLen
        data == SubSeq(d.data, 1, n)
    IN IF ~d.ok \/ n < 0 THEN Error(p, "data_mismatch")
       ELSE IF SubSeq(d.data, n + 1, Len(d.data)) # Mac(data)
       THEN Error(p, "data_mismatch")
       ELSE Packet(p, data)

\* Position of the first zero from p on, or 0.
RECURSIVE ZeroFrom(_, _)
ZeroFrom(s, p) == IF p > Len(s) THEN 0 ELSE IF s[p] = 0 THEN p ELSE ZeroFrom(s, p + 1)

\* max: longest packet accepted, in its encoded form.
SerialReceive(s, p, max) ==
    LET z == ZeroFrom(s, p)
        end == IF z = 0 THEN Len(s) + 1 ELSE z
    IN IF end - p > max THEN Error(p + max + 1, "out_of_range")
       ELSE IF z = 0 THEN Error(end, "eof")
       ELSE OpenPacket(z + 1, SubSeq(s, p, z - 1))

\* A frame, with its zero, is right if it's received as the data.
IsSerialFrame(f, data) ==
    /\ Len(f) > 0
    /\ f[Len(f)] = 0
    /\ IsEncoding(SubSeq(f, 1, Len(f) - 1), data \o Mac(data))
SerialFrame(data) == CobsEncode(data \o Mac(data)) \o <<0>>
=============================================================================
