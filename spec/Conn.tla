-------------------------------- MODULE Conn --------------------------------
(* An established TLS connection over a byte stream: two endpoints a and b, and the records between them.  *)
(* tx[e]: records e has written and the network has not delivered; rx[e]: records delivered to e, not read. *)
(* The network may deliver part of a record, and an attacker may change, drop, repeat, swap or insert       *)
(* records. `ok` on a record says that it is exactly the next record its sender wrote.                      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Rooms,       \* what the transport accepts at once: "all", "none", "some"
          Writers, Readers, Closers, TDirs, \* which endpoints write, read, close; whose records are tampered with
          Sizes,       \* application write sizes
          Reads,       \* read buffer sizes
          MaxQ,        \* records in flight or unread, per direction (exploration bound)
          Tampers, Forges,     \* tampering and forging kinds
          Ops,         \* enabled operations
          Quiet,       \* quiet shutdown configured
          Limits       \* largest plaintext fragment (16384 unless configured)

Configs == {[max |-> m, quiet |-> q] : m \in Limits, q \in Quiet}
Other(e) == IF e = "a" THEN "b" ELSE "a"
End0 == [st |-> "open", ss |-> FALSE, sr |-> FALSE, pend |-> 0, rx |-> <<>>, tx |-> <<>>, part |-> FALSE, eof |-> FALSE, bad |-> FALSE, lost |-> FALSE, wp |-> 0, why |-> 0]
InitState(c) == [max |-> c.max, quiet |-> c.quiet, a |-> End0, b |-> End0]

Min(x, y) == IF x < y THEN x ELSE y
Rec(x, k, n) == [k |-> k, n |-> n, ok |-> IF x.lost THEN "drop" ELSE "yes"]
R(s, e, x, o) == [s |-> [s EXCEPT ![e] = x], out |-> o]

---------------------------------------------------------------------------
(* a write: at most one record; the transport may refuse (room = "none") or accept only a part of the record *)
(* ("some"): then the call reports "again", nothing is lost, and the same write has to be repeated            *)
Write(s, i) ==
   LET x == s[i.c]
       n == Min(i.n, s.max) IN
   IF x.st = "dead" THEN {R(s, i.c, x, <<"dead">>)}
   ELSE IF x.st = "closed" /\ x.ss THEN {R(s, i.c, x, <<"closed">>)}
   ELSE IF x.wp > 0 /\ n < x.wp THEN {}       \* the driver repeats the pending write
   ELSE LET m == IF x.wp > 0 THEN x.wp ELSE n IN
        (IF i.room # "all" THEN {R(s, i.c, [x EXCEPT !.wp = m], <<"again">>)} ELSE {})
        \cup (IF i.room = "all" \/ (i.room = "some" /\ x.wp > 0) THEN {R(s, i.c, [x EXCEPT !.wp = 0, !.tx = Append(@, Rec(x, "d", m))], <<"ok", m>>)} ELSE {})

(* a fatal alert is sent and the connection is gone *)
(* a record that was sealed and only partly written still goes out before it *)
Fatal(x) == [x EXCEPT !.st = "dead", !.rx = <<>>, !.pend = 0, !.wp = 0,
                      !.tx = (IF x.wp > 0 THEN Append(@, Rec(x, "d", x.wp)) ELSE @) \o <<Rec(x, "fatal", 0)>>]
AlertOf(k) ==
   CASE k \in {"body", "tag", "first", "drop", "dup", "swap", "type", "zero", "cross"} -> {20}
     [] k = "short" -> {20, 50, 22, 10, 70, 47}
     [] k = "insplain" -> {20, 10, 50, 22}
     [] k = "insalert" -> {20, 10, 50, 22}
     [] k = "insccs" -> {10, 20}
     [] k = "huge" -> {22, 20}
     [] k = "overflow" -> {22}
     [] k \in {"zerotype", "badinner", "emptyhs", "emptyalert"} -> {10, 50}
     [] k \in {"cbcpad", "seq"} -> {20}
     [] OTHER -> {20, 50, 22, 10, 70, 47}

RECURSIVE Skip(_)
Skip(q) == IF q # <<>> /\ Head(q).ok = "yes" /\ Head(q).k = "d" /\ Head(q).n = 0 THEN Skip(Tail(q)) ELSE q    \* empty records carry nothing
Read(s, i) ==
   LET x0 == s[i.c]
       x == IF x0.pend > 0 \/ x0.st = "dead" THEN x0 ELSE [x0 EXCEPT !.rx = Skip(@)]
       peek == i.op = "peek"
       Keep(have) == IF peek THEN have ELSE have - Min(i.n, have)
   IN
   IF x.st = "dead" THEN {R(s, i.c, x, <<"dead">>)}
   ELSE IF x.st = "closed" /\ x.sr THEN {R(s, i.c, x, <<"closed">>)}
   ELSE IF x.pend > 0 THEN {R(s, i.c, [x EXCEPT !.pend = Keep(x.pend)], <<"ok", Min(i.n, x.pend), TRUE>>)}
   ELSE IF x.rx = <<>> THEN
        IF x.eof THEN {R(s, i.c, x, <<"err">>)}          \* the transport ended without close_notify: never a clean end
        ELSE {R(s, i.c, x, <<"again">>)}
   ELSE LET h == Head(x.rx)  x1 == [x EXCEPT !.rx = Tail(@)] IN
        IF h.ok # "yes" THEN
             {R(s, i.c, Fatal(x1), <<"fatal", d>>) : d \in AlertOf(h.ok)}
             \cup (IF h.ok = "long" THEN {R(s, i.c, x, IF x.eof THEN <<"err">> ELSE <<"again">>)} ELSE {})
        ELSE IF h.k = "d" THEN {R(s, i.c, [x1 EXCEPT !.pend = Keep(h.n)], <<"ok", Min(i.n, h.n), TRUE>>)}
        ELSE IF h.k = "close" THEN
             {R(s, i.c, [x1 EXCEPT !.sr = TRUE, !.st = "closed", !.ss = x.ss \/ s.quiet], <<"closed">>)}
        ELSE {R(s, i.c, [x1 EXCEPT !.sr = TRUE, !.st = "dead", !.rx = <<>>, !.pend = 0],
                IF x.st = "closed" THEN <<"closed">> ELSE <<"err">>)}

(* close: the first call sends close_notify; a later one looks for the peer's *)
Close(s, i) ==
   LET x == s[i.c] IN
   IF s.quiet THEN {R(s, i.c, [x EXCEPT !.st = "closed", !.ss = TRUE, !.sr = TRUE], <<"ok">>)}
   ELSE IF x.st = "open" /\ i.room = "none" THEN {R(s, i.c, [x EXCEPT !.st = "closing"], <<"again">>)}
   ELSE IF x.st = "open" THEN
        {R(s, i.c, [x EXCEPT !.st = "closed", !.ss = TRUE, !.tx = Append(@, Rec(x, "close", 0))], <<"ok">>)}
   ELSE IF x.st = "dead" THEN {R(s, i.c, [x EXCEPT !.st = "closed", !.ss = TRUE, !.sr = TRUE], <<"ok">>)}
   ELSE IF ~x.sr THEN
        IF x.pend > 0 THEN {R(s, i.c, [x EXCEPT !.pend = 0], <<"ok">>)}
        ELSE IF x.rx = <<>> THEN {R(s, i.c, x, IF x.eof THEN <<"err">> ELSE <<"again">>)}
        ELSE LET h == Head(x.rx)  x1 == [x EXCEPT !.rx = Tail(@)] IN
             IF h.ok # "yes" THEN (IF i.room = "none" THEN {R(s, i.c, [x1 EXCEPT !.st = "dying", !.rx = <<>>, !.pend = 0, !.why = d], <<"again">>) : d \in AlertOf(h.ok)}
                                                        ELSE {R(s, i.c, Fatal(x1), <<"fatal", d>>) : d \in AlertOf(h.ok)})
                  \cup (IF h.ok = "long" THEN {R(s, i.c, x, IF x.eof THEN <<"err">> ELSE <<"again">>)} ELSE {})
             ELSE IF h.k = "d" THEN {R(s, i.c, [x1 EXCEPT !.pend = 0], <<"ok">>)}
             ELSE IF h.k = "close" THEN {R(s, i.c, [x1 EXCEPT !.sr = TRUE], <<"ok">>)}
             ELSE {R(s, i.c, [x1 EXCEPT !.sr = TRUE, !.st = "dead", !.rx = <<>>, !.pend = 0], <<"err">>)}
   ELSE IF ~x.ss /\ i.room = "none" THEN {R(s, i.c, [x EXCEPT !.st = "closing"], <<"again">>)}
   ELSE IF ~x.ss THEN {R(s, i.c, [x EXCEPT !.ss = TRUE, !.tx = Append(@, Rec(x, "close", 0))], <<"ok">>)}
   ELSE {R(s, i.c, x, <<"ok">>)}

(* delivery of the next record of c to its peer; "part": only some of its bytes *)
Deliver(s, i) ==
   LET x == s[i.c]  y == s[Other(i.c)] IN
   IF x.tx = <<>> THEN {}
   ELSE IF i.op = "part" THEN {R(s, i.c, [x EXCEPT !.part = TRUE], <<>>)}
   ELSE {[s |-> [s EXCEPT ![i.c] = [x EXCEPT !.tx = Tail(@), !.part = FALSE],
                          ![Other(i.c)] = [y EXCEPT !.rx = IF y.st \in {"dead", "dying"} THEN <<>> ELSE Append(@, Head(x.tx))]], out |-> <<>>]}

(* tampering with what is in flight (between the delivered prefix and the rest) *)
Bad(r, k) == [r EXCEPT !.ok = k]
Tamper(s, i) ==
   LET x == s[i.c] IN
   IF x.part \/ x.bad \/ x.tx = <<>> THEN {}
   ELSE LET h == Head(x.tx)  t == Tail(x.tx)
            q == CASE i.k \in {"body", "tag", "first", "type", "ver", "short", "long", "zero"} -> <<Bad(h, i.k)>> \o t
                   [] i.k = "drop" -> [j \in 1..Len(t) |-> Bad(t[j], "drop")]
                   [] i.k = "dup" -> <<h, Bad(h, "dup")>> \o t
                   [] i.k = "swap" -> IF Len(x.tx) < 2 THEN <<>> ELSE <<Bad(x.tx[2], "swap"), Bad(h, "swap")>> \o Tail(t)
                   [] i.k \in {"insplain", "insalert", "insccs", "huge", "cross"} -> <<[k |-> "d", n |-> 1, ok |-> i.k]>> \o x.tx
        IN IF i.k = "swap" /\ Len(x.tx) < 2 THEN {} ELSE {R(s, i.c, [x EXCEPT !.tx = q, !.bad = TRUE, !.lost = (i.k = "drop")], <<>>)}

(* records made by someone who has the keys: a well-formed record with padding or without content is accepted, *)
(* a malformed one is refused                                                                                   *)
Forge(s, i) ==
   LET x == s[i.c]
       r == CASE i.k = "pad" -> [k |-> "d", n |-> i.n, ok |-> "yes"]
              [] i.k = "empty" -> [k |-> "d", n |-> 0, ok |-> "yes"]
              [] i.k = "fatalalert" -> [k |-> "fatal", n |-> 0, ok |-> "yes"]
              [] OTHER -> [k |-> "d", n |-> i.n, ok |-> i.k]
   IN {R(s, i.c, [x EXCEPT !.tx = Append(@, r)], <<>>)}

Eof(s, i) == {R(s, Other(i.c), [s[Other(i.c)] EXCEPT !.eof = TRUE], <<>>)}

(* a close_notify that could not be written yet goes out before anything else is done *)
Settle(s, e) == LET x == s[e] IN
   IF x.st = "closing" THEN [s EXCEPT ![e] = [x EXCEPT !.st = "closed", !.ss = TRUE, !.sr = TRUE, !.tx = Append(@, Rec(x, "close", 0))]] ELSE s
(* a fatal alert that could not be written yet: likewise *)
Die(s, i) == LET x == s[i.c]
                 f == [Fatal(x) EXCEPT !.why = 0] IN
   IF (i.op = "write" /\ i.room # "all") \/ (i.op = "close" /\ i.room = "none") THEN {[s |-> s, out |-> <<"again">>]}
   ELSE IF i.op = "write" THEN {R(s, i.c, f, <<"dead">>)}
   ELSE IF i.op = "close" THEN {R(s, i.c, [f EXCEPT !.st = "closed", !.ss = TRUE, !.sr = TRUE], <<"fatal", x.why>>)}
   ELSE {R(s, i.c, f, <<"fatal", x.why>>)}

Outcomes(s, i) ==
   CASE i.op \in {"write", "read", "peek", "close"} /\ s[i.c].st = "dying" -> Die(s, i)
     [] i.op = "write" -> (IF s[i.c].st = "closing" /\ i.room # "all" THEN {[s |-> s, out |-> <<"again">>]} ELSE {})
                          \cup (IF s[i.c].st = "closing" /\ i.room = "none" THEN {} ELSE Write(Settle(s, i.c), i))
     [] i.op \in {"read", "peek"} -> Read(Settle(s, i.c), i)
     [] i.op = "close" -> IF s[i.c].st = "closing" THEN {[s |-> IF i.room # "none" THEN Settle(s, i.c) ELSE s, out |-> IF i.room # "none" THEN <<"ok">> ELSE <<"again">>]} ELSE Close(s, i)
     [] i.op \in {"deliver", "part"} -> Deliver(s, i)
     [] i.op = "tamper" -> Tamper(s, i)
     [] i.op = "forge" -> Forge(s, i)
     [] i.op = "eof" -> Eof(s, i)
     [] OTHER -> {}

---------------------------------------------------------------------------
Q(s, e) == Len(s[e].tx) + Len(s[Other(e)].rx)
Inputs(s) == { i \in
  UNION { LET x == s[e] IN
     IF Q(s, e) < MaxQ \/ x.wp > 0 THEN {[op |-> "write", c |-> e, n |-> n, room |-> r] : n \in (IF x.wp > 0 THEN {x.wp} ELSE Sizes), r \in Rooms} ELSE {}
     : e \in Writers }
  \cup {[op |-> o, c |-> e, n |-> n] : o \in {"read", "peek"}, n \in Reads, e \in Readers}
  \cup {[op |-> "close", c |-> e, room |-> r] : r \in Rooms, e \in {f \in Closers : Q(s, f) <= MaxQ /\ s[f].wp = 0} }
  \cup {[op |-> "deliver", c |-> e] : e \in {"a", "b"}}
  \cup {[op |-> "part", c |-> e] : e \in {f \in {"a", "b"} : ~s[f].part} }
  \cup {[op |-> "forge", c |-> e, k |-> k, n |-> n] : k \in Forges, n \in Sizes, e \in {f \in TDirs : Q(s, f) < MaxQ}}
  \cup {[op |-> "tamper", c |-> e, k |-> k] : k \in Tampers, e \in TDirs}
  \cup {[op |-> "eof", c |-> e] : e \in {f \in {"a", "b"} : ~s[Other(f)].eof} }
  : i.op \in Ops }

Inv(s) == \A e \in {"a", "b"} : /\ s[e].st \in {"open", "closing"} => ~s[e].ss
                                /\ s[e].st = "dead" => s[e].pend = 0
(* what the model promises about data and the end of the stream *)
TransInv(s, i, o, t) ==
   /\ (i.op \in {"read", "peek"} /\ o[1] = "ok") => /\ s[i.c].st # "dead"
                                                    /\ s[i.c].pend > 0 \/ (Skip(s[i.c].rx) # <<>> /\ Head(Skip(s[i.c].rx)).ok = "yes")
   /\ (i.op = "read" /\ o[1] = "closed") => t[i.c].sr \/ t[i.c].ss
   /\ \A e \in {"a", "b"} : s[e].st = "dead" => t[e].st \in {"dead", "closed"}
   /\ (i.op = "write" /\ o[1] = "ok") => ~s[i.c].ss
=============================================================================
