------------------------------ MODULE NetTrace ------------------------------
(* What was done with files, sockets and names, and what came of it, one     *)
(* session per line.                                                         *)
EXTENDS Net, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Bool(b) == IF b THEN 1 ELSE 0

\* A step: [ok, s].
No(s) == [ok |-> FALSE, s |-> s]
Is(b, s) == [ok |-> b, s |-> s]
Of(x, o) == Is(x.res = o.res, x.s)

ChannelStep(s, o) ==
    IF o.o = "is" THEN Is(o.res = "ok" /\ o.v = Bool(s.ch[o.c] # 0), s)
    ELSE Is(o.res = IF o.o = "dup" /\ s.ch[o.d] = 0 THEN "io_error" ELSE "ok",
            Channel(s, o))

---------------------------------------------------------------------------
\* Files.
FilesStart(r) ==
    LET of(n) == CHOOSE i \in 1..Len(r.files) : r.files[i].n = n
    IN [ch |-> <<0, 0, 0>>, ds |-> <<>>,
        fs |-> [n \in {r.files[i].n : i \in 1..Len(r.files)} |->
                  [b |-> r.files[of(n)].b, perm |-> 416]]]
\* 438 is 666 in octal; masks are 0, 22 or 77.
Permissions(mask) == CASE mask = 0 -> 438 [] mask = 18 -> 420 [] mask = 63 -> 384
FileStep(r, s, o) ==
    CASE o.o = "file" ->
           LET x == OpenFile(s, o.c, o.n, Modes[o.mode], Permissions(r.mask))
           IN Is(/\ x.res = o.res
                 /\ o.res = "ok" /\ o.n # "dir" => o.perm = x.s.fs[o.n].perm, x.s)
      [] o.o = "write" ->
           LET x == WriteFile(s, o.c, o.b)
           IN Is(x.res = o.res /\ (o.res = "ok" => o.v = Len(o.b)), x.s)
      [] o.o = "read" ->
           LET x == ReadFile(s, o.c, o.k)
           IN Is(x.res = o.res /\ (o.res = "ok" => o.b = x.b), x.s)
      [] o.o = "cat" ->
           IF o.n \in DOMAIN s.fs THEN Is(o.res = "ok" /\ o.b = s.fs[o.n].b, s)
           ELSE Is(o.res = "io_error", s)
      [] OTHER -> ChannelStep(s, o)

---------------------------------------------------------------------------
\* Sockets.
SocketsStart ==
    [ch |-> <<0, 0, 0, 0, 0, 0>>, ds |-> <<>>, ln |-> <<>>, ends |-> <<>>,
     ls |-> [l \in 1..3 |-> NoListener]]
Text(r, f, p) == (IF f = 4 THEN "127.0.0.1:" ELSE "[::1]:") \o ToString(r.ports[p])
Address(r, f, p) == [f |-> f, t |-> 1, a |-> Text(r, f, p)]
SocketStep(r, s, o) ==
    CASE o.o \in {"listen", "bind"} ->
           LET x == Listen(s, o.l, Families(o.host), o.port)
           IN Is(/\ x.res = o.res
                 /\ o.o = "bind" /\ o.res = "ok" =>
                      /\ o.own.f = o.host
                      /\ o.own.a = Text(r, o.host, o.port), x.s)
      [] o.o = "unlisten" -> Is(o.res = "ok", Unlisten(s, o.l))
      [] o.o = "dial" ->
           LET fs == {f \in Families(o.host) : Listens(s, f, o.port) # {}}
           IN IF fs = {} THEN Is(o.res = "io_error", s)
              ELSE IF o.res # "ok" \/ o.peer.f \notin fs THEN No(s)
              ELSE LET x == Dial(s, o.c, o.peer.f, o.port)
                   IN Is(/\ o.peer = Address(r, o.peer.f, o.port)
                         /\ o.own.f = o.peer.f /\ o.own.t = 1
                         /\ o.isnb = o.nb,
                         \* Who's who.
                         [x EXCEPT !.ends = Append(@, [own |-> o.own, peer |-> o.peer])])
      [] o.o = "accept" ->
           LET w == {n \in s.ls[o.l].wait :
                       o.res = "ok" => s.ends[n].own.a = o.peer.a /\ s.ends[n].peer.a = o.own.a}
           IN CASE o.res = "ok" ->
                     IF w = {} THEN No(s)
                     ELSE Is(/\ o.own.t = 1 /\ o.peer.t = 1
                             /\ o.own.f = s.ends[CHOOSE n \in w : TRUE].own.f
                             /\ o.peer.f = o.own.f
                             /\ o.isnb = o.nb
                             \* One of two that came at once may be at hand.
                             /\ o.cancelled = 0 \/ Cardinality(s.ls[o.l].fams) = 2,
                             Accept(s, o.c, o.l, CHOOSE n \in w : TRUE))
                [] o.res = "cancelled" -> Is(o.cancelled = 1, s)
                [] o.res = "deadline_exceeded" -> Is(w = {} /\ o.cancelled = 0, s)
                [] OTHER -> No(s)
      [] o.o = "send" ->
           IF o.res \notin SendResults(s, o.c) THEN No(s)
           ELSE IF o.res # "ok" THEN Is(TRUE, s)
           ELSE Is(o.v = Len(o.b), Send(s, o.c, o.b))
      [] o.o = "receive" ->
           IF o.res \notin ReceiveResults(s, o.c) THEN No(s)
           ELSE IF o.res # "ok" THEN Is(TRUE, s)
           ELSE IF CanReceive(s, o.c, o.k, o.b) THEN Is(TRUE, Received(s, o.c, o.b))
           ELSE No(s)
      [] o.o = "shutdown" ->
           IF o.res \notin ShutdownResults(s, o.c, o.rd = 1, o.wr = 1) THEN No(s)
           ELSE Is(TRUE, Shutdown(s, o.c, o.rd = 1, o.wr = 1))
      \* Broken ones may have forgotten.
      [] o.o = "ends" ->
           LET a == End(s, o.c)
               known == s.ends[a.l]
               e == IF a.side = 1 THEN known ELSE [own |-> known.peer, peer |-> known.own]
           IN Is(/\ o.own.f = e.own.f /\ o.own.a = e.own.a
                 /\ o.there = 0 => MayForget(s, a.l)
                 /\ o.there = 1 => o.peer.f = e.peer.f /\ o.peer.a = e.peer.a, s)
      [] o.o = "option" -> Is(o.res = "ok" /\ o.is = o.v, s)
      [] OTHER -> LET x == ChannelStep(s, o) IN Is(x.ok, Collect(x.s))

---------------------------------------------------------------------------
\* Names: as the system has them.
ResolveOk(o) ==
    IF o.want = <<>> THEN o.res = "io_error"
    ELSE /\ o.res = "ok"
         /\ o.as = o.want /\ o.again = o.want
         /\ o.size = Len(o.want) /\ o.empty = Bool(o.want = <<>>)

---------------------------------------------------------------------------
\* Calls over sockets, one after the other.  broken: for each client, how many
\* calls may fail because its link was broken by stopping the server: two, until
\* one succeeds.
CallStart == [up |-> FALSE, broken |-> [k \in {0, 1} |-> 0]]
CallStep(r, s, o) ==
    CASE o.o = "start" -> Is(o.res = "ok", [s EXCEPT !.up = TRUE])
      [] o.o = "stop" -> Is(o.res = "ok", [up |-> FALSE, broken |-> [k \in {0, 1} |-> 2]])
      [] o.o = "call" ->
           LET n == r.executed[o.id]
               good == CASE o.m = 4 -> o.res = "not_found" /\ n = 0
                         [] o.m = 3 -> o.res = "out_of_range" /\ n = 1
                         [] OTHER -> o.res = "ok" /\ n = 1 /\ o.v = o.arg \o o.arg
           IN IF ~s.up THEN Is(o.res # "ok" /\ n = 0, s)
              ELSE IF good THEN Is(TRUE, [s EXCEPT !.broken[o.cl] = 0])
              \* The call itself may be using the next link.
              ELSE Is(s.broken[o.cl] > 0 /\ o.res \in {"eof", "io_error"} /\ n <= 1,
                      [s EXCEPT !.broken[o.cl] = @ - 1])

---------------------------------------------------------------------------
Steps(r, start, step(_, _, _), open(_, _), counted) ==
    FoldLeft(LAMBDA x, i :
               IF ~x.ok THEN x
               ELSE LET o == r.ops[i]
                        y == step(r, x.s, o)
                        ok == y.ok /\ (counted => open(y.s, o.open))
                    IN IF ok THEN y
                       ELSE IF PrintT(<<"operation", i, o>>) THEN [y EXCEPT !.ok = FALSE] ELSE y,
             [ok |-> TRUE, s |-> start], [i \in 1..Len(r.ops) |-> i]).ok
\* How many descriptors there are.
FilesOpen(s, n) == n = Opened(s)
SocketsOpen(s, n) == n - OpenSockets(s) \in 0..AtHand(s)
None(s, n) == TRUE
LineOk(r) ==
    CASE "files" \in DOMAIN r -> Steps(r, FilesStart(r), FileStep, FilesOpen, TRUE)
      [] "ports" \in DOMAIN r -> Steps(r, SocketsStart, SocketStep, SocketsOpen, TRUE)
      [] "executed" \in DOMAIN r -> Steps(r, CallStart, CallStep, None, FALSE)
      [] OTHER -> \A i \in 1..Len(r.ops) : ResolveOk(r.ops[i])

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
