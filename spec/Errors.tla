------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* Errors: how exceptions become a portable class name and a message, how  *)
(* they become exceptions again, and the results of calls, which hold a    *)
(* value, an exception, or nothing.                                        *)
(***************************************************************************)
EXTENDS Bytes, Sequences, Naturals

\* Registered by the library, and by the program.
Registered == {"unknown_error", "cancelled", "data_mismatch",
               "deadline_exceeded", "eof", "internal_error",
               "invalid_argument", "invalid_state", "io_error",
               "not_implemented", "not_found", "out_of_range",
               "shutting_down", "unavailable", "try_again"}
Custom == {"custom_error", "Another"}
Known == Registered \union Custom

NoError == [cls |-> "", what |-> <<>>]
Error(c, w) == [cls |-> c, what |-> w]

\* The portable name and message of an exception.  Classes derived from a
\* registered one go by its name; other exceptions only have a message.
Analyze(x) ==
    CASE x.cls \in Known -> <<x.cls, x.what>>
      [] x.cls = "derived_error" -> <<"custom_error", x.what>>
      [] x.cls = "std" -> <<"", x.what>>
      [] OTHER -> <<"", <<>>>>
\* The exception made from them.
Rebuild(type, what) ==
    Error(IF type \in Known THEN type ELSE "unknown_error", what)
Transported(x) == Rebuild(Analyze(x)[1], Analyze(x)[2])

\* Results: val is <<>> or <<value>>, exc is NoError or an exception.
NoResult == [val |-> <<>>, exc |-> NoError]
HasResult(h) == h.val # <<>> \/ h.exc # NoError
\* What reading it yields: [v, e].
Got(h) == IF h.exc # NoError THEN [v |-> <<>>, e |-> h.exc]
          ELSE IF h.val # <<>> THEN [v |-> h.val[1], e |-> NoError]
          ELSE [v |-> <<>>, e |-> Error("invalid_state", <<>>)]
Received(h) == [h EXCEPT !.exc = IF @ = NoError THEN @ ELSE Transported(@)]
=============================================================================
