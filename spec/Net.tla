-------------------------------- MODULE Net --------------------------------
(***************************************************************************)
(* Channels to files and sockets.  A channel holds a descriptor, or none;  *)
(* descriptors made by dup share what they're open to: a description.      *)
(* Descriptions are numbered in the order they're made.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Least(a, b) == IF a < b THEN a ELSE b
Result(s, res) == [s |-> s, res |-> res]

---------------------------------------------------------------------------
(* What channels hold: 0 for none.                                         *)

\* ch: by channel, the description.
Holds(s, d) == \E c \in DOMAIN s.ch : s.ch[c] = d
Channel(s, o) ==
    CASE o.o = "swap" -> [s EXCEPT !.ch[o.c] = s.ch[o.d], !.ch[o.d] = s.ch[o.c]]
      [] o.o = "move" -> IF o.c = o.d THEN s
                         ELSE [s EXCEPT !.ch[o.c] = s.ch[o.d], !.ch[o.d] = 0]
      [] o.o = "close" -> [s EXCEPT !.ch[o.c] = 0]
      [] o.o = "dup" -> IF s.ch[o.d] = 0 THEN s ELSE [s EXCEPT !.ch[o.c] = s.ch[o.d]]
      [] OTHER -> s
ChannelOps == {"swap", "move", "close", "dup", "is"}
Opened(s) == Cardinality({c \in DOMAIN s.ch : s.ch[c] # 0})

---------------------------------------------------------------------------
(* Files: by name, with contents and permissions.                          *)

Modes == <<[rd |-> TRUE, wr |-> FALSE, make |-> FALSE, empty |-> FALSE, end |-> FALSE],
           [rd |-> FALSE, wr |-> TRUE, make |-> TRUE, empty |-> TRUE, end |-> FALSE],
           [rd |-> FALSE, wr |-> TRUE, make |-> TRUE, empty |-> FALSE, end |-> TRUE],
           [rd |-> TRUE, wr |-> TRUE, make |-> FALSE, empty |-> FALSE, end |-> FALSE],
           [rd |-> TRUE, wr |-> TRUE, make |-> TRUE, empty |-> TRUE, end |-> FALSE],
           [rd |-> TRUE, wr |-> TRUE, make |-> TRUE, empty |-> FALSE, end |-> TRUE]>>

\* x.mode is one of those.  There's a directory, too.
OpenFile(s, c, n, m, perm) ==
    IF n = "dir"
    THEN IF m.wr THEN Result(s, "io_error")
         ELSE Result([s EXCEPT !.ch[c] = Len(s.ds) + 1,
                               !.ds = Append(@, [n |-> n, mode |-> m, at |-> 0])], "ok")
    ELSE IF n \notin DOMAIN s.fs /\ ~m.make THEN Result(s, "io_error")
    ELSE LET there == n \in DOMAIN s.fs
             f == IF there THEN IF m.empty THEN [s.fs[n] EXCEPT !.b = <<>>] ELSE s.fs[n]
                  ELSE [b |-> <<>>, perm |-> perm]
         IN Result([s EXCEPT !.ch[c] = Len(s.ds) + 1,
                             !.ds = Append(@, [n |-> n, mode |-> m, at |-> 0]),
                             !.fs = [x \in DOMAIN @ \union {n} |-> IF x = n THEN f ELSE @[x]]],
                   "ok")

Zeros(n) == [i \in 1..n |-> 0]
Overwrite(b, at, x) ==
    (IF Len(b) < at THEN b \o Zeros(at - Len(b)) ELSE SubSeq(b, 1, at)) \o x \o
    SubSeq(b, at + Len(x) + 1, Len(b))
WriteFile(s, c, x) ==
    IF s.ch[c] = 0 THEN Result(s, "io_error")
    ELSE LET d == s.ds[s.ch[c]]
         IN IF ~d.mode.wr THEN Result(s, "io_error")
            ELSE LET b == s.fs[d.n].b
                     at == IF d.mode.end THEN Len(b) ELSE d.at
                 IN Result([s EXCEPT !.fs[d.n].b = Overwrite(b, at, x),
                                     !.ds[s.ch[c]].at = at + Len(x)], "ok")
\* b: what was read.
ReadFile(s, c, k) ==
    IF s.ch[c] = 0 THEN [s |-> s, res |-> "io_error", b |-> <<>>]
    ELSE LET d == s.ds[s.ch[c]]
         IN IF ~d.mode.rd \/ d.n = "dir" THEN [s |-> s, res |-> "io_error", b |-> <<>>]
            ELSE LET f == s.fs[d.n].b
                     b == SubSeq(f, d.at + 1, Least(Len(f), d.at + k))
                 IN [s |-> [s EXCEPT !.ds[s.ch[c]].at = @ + Len(b)],
                     res |-> IF b = <<>> THEN "eof" ELSE "ok", b |-> b]

---------------------------------------------------------------------------
(* Sockets.  Descriptions are ends of links: [l, side], side 1 having      *)
(* dialed.  A link: dt[i] is what's on its way to side i; wr[i], rd[i]:    *)
(* side i is shut for writing, for reading; cl[i]: closed; bad: whatever   *)
(* happens to the link.                                                    *)

NewLink == [dt |-> <<<<>>, <<>>>>, wr |-> <<FALSE, FALSE>>, rd |-> <<FALSE, FALSE>>,
            cl |-> <<FALSE, FALSE>>, bad |-> FALSE]
Other(i) == 3 - i

\* Descriptions nobody holds any more are closed.
CloseEnd(s, d) ==
    LET x == s.ds[d]
        ln == s.ln[x.l]
    IN [s EXCEPT !.ds[d].open = FALSE,
                 !.ln[x.l] = [ln EXCEPT !.cl[x.side] = TRUE,
                                        !.bad = @ \/ ln.dt[x.side] # <<>> \/ ln.bad]]
RECURSIVE CloseEnds(_, _)
CloseEnds(s, ds) ==
    IF ds = {} THEN s
    ELSE LET d == CHOOSE x \in ds : TRUE IN CloseEnds(CloseEnd(s, d), ds \ {d})
Collect(s) ==
    CloseEnds(s, {d \in 1..Len(s.ds) : s.ds[d].open /\ ~Holds(s, d)})

\* ls: listeners; fams: the families they listen to, {} if there's none; port;
\* wait: links to be accepted.
NoListener == [fams |-> {}, port |-> 0, wait |-> {}]
Listens(s, f, p) == {l \in DOMAIN s.ls : f \in s.ls[l].fams /\ s.ls[l].port = p}
\* Links nobody accepted go with it.
Unlisten(s, l) ==
    [s EXCEPT !.ls[l] = NoListener,
              !.ln = [i \in DOMAIN @ |->
                        IF i \in s.ls[l].wait
                        THEN [@[i] EXCEPT !.cl[2] = TRUE, !.bad = TRUE] ELSE @[i]]]
Families(host) == IF host = 0 THEN {4, 6} ELSE {host}
Listen(s, l, fams, p) ==
    LET t == Unlisten(s, l)
    IN IF \E f \in fams : Listens(t, f, p) # {} THEN Result(t, "io_error")
       ELSE Result([t EXCEPT !.ls[l] = [fams |-> fams, port |-> p, wait |-> {}]], "ok")
\* By the family that was used.
Dial(s, c, f, p) ==
    LET l == CHOOSE x \in Listens(s, f, p) : TRUE
    IN Collect([s EXCEPT !.ch[c] = Len(s.ds) + 1,
                         !.ds = Append(@, [l |-> Len(s.ln) + 1, side |-> 1, open |-> TRUE]),
                         !.ln = Append(@, NewLink),
                         !.ls[l].wait = @ \union {Len(s.ln) + 1}])
Accept(s, c, l, n) ==
    Collect([s EXCEPT !.ch[c] = Len(s.ds) + 1,
                      !.ds = Append(@, [l |-> n, side |-> 2, open |-> TRUE]),
                      !.ls[l].wait = @ \ {n}])

End(s, c) == s.ds[s.ch[c]]
Link(s, c) == s.ln[End(s, c).l]
SendResults(s, c) ==
    LET ln == Link(s, c)
        i == End(s, c).side
    IN (IF ~ln.wr[i] THEN {"ok"} ELSE {}) \union
       (IF ln.wr[i] \/ ln.bad THEN {"io_error"} ELSE {})
Send(s, c, x) ==
    LET n == End(s, c).l
        i == End(s, c).side
        ln == s.ln[n]
    IN IF ln.cl[Other(i)] THEN [s EXCEPT !.ln[n].bad = TRUE]
       ELSE [s EXCEPT !.ln[n].dt[Other(i)] = @ \o x,
                      !.ln[n].bad = @ \/ ln.rd[Other(i)]]
ReceiveResults(s, c) ==
    LET ln == Link(s, c)
        i == End(s, c).side
        ended == ln.wr[Other(i)] \/ ln.cl[Other(i)] \/ ln.rd[i]
    IN IF ln.bad
       THEN {"ok", "eof", "io_error"} \union IF ended THEN {} ELSE {"deadline_exceeded"}
       ELSE IF ln.dt[i] # <<>> THEN {"ok"}
       ELSE IF ended THEN {"eof"} ELSE {"deadline_exceeded"}
CanReceive(s, c, k, x) ==
    LET ln == Link(s, c)
        d == ln.dt[End(s, c).side]
    IN /\ x # <<>> /\ Len(x) <= k
       /\ Len(x) <= Len(d) /\ SubSeq(d, 1, Len(x)) = x
Received(s, c, x) ==
    LET e == End(s, c)
    IN [s EXCEPT !.ln[e.l].dt[e.side] = SubSeq(@, Len(x) + 1, Len(@))]
\* It may be too late for that.
MayForget(s, n) ==
    LET ln == s.ln[n]
    IN ln.bad \/ ln.cl[1] \/ ln.cl[2] \/ (ln.wr[1] /\ ln.wr[2])
ShutdownResults(s, c, rd, wr) ==
    {"ok"} \union
    IF (rd \/ wr) /\ MayForget(s, End(s, c).l) THEN {"io_error"} ELSE {}
Shutdown(s, c, rd, wr) ==
    LET e == End(s, c)
    IN [s EXCEPT !.ln[e.l].rd[e.side] = @ \/ rd, !.ln[e.l].wr[e.side] = @ \/ wr]

Listeners(s) == {l \in DOMAIN s.ls : s.ls[l].fams # {}}
RECURSIVE Sum(_, _)
Sum(f, xs) == IF xs = {} THEN 0
              ELSE LET x == CHOOSE y \in xs : TRUE IN f[x] + Sum(f, xs \ {x})
OpenSockets(s) ==
    Opened(s) + Sum([l \in DOMAIN s.ls |-> Cardinality(s.ls[l].fams)], DOMAIN s.ls)
\* Listeners for two families may have accepted links that nobody asked for yet.
AtHand(s) ==
    Sum([l \in DOMAIN s.ls |-> IF Cardinality(s.ls[l].fams) = 2
                               THEN Cardinality(s.ls[l].wait) ELSE 0], DOMAIN s.ls)
=============================================================================
