-------------------------------- MODULE Rekey --------------------------------
(* Key updates of an established TLS 1.3 connection, between two endpoints a and b over a byte stream.          *)
(* q: what an endpoint has to write and the transport has not taken yet, in order; tx: records in flight;       *)
(* rx: records delivered and not read. A record is "d" (data), "ku0"/"ku1" (KeyUpdate, without/with a request), *)
(* or, from a peer that misbehaves, something else. All that follows a KeyUpdate is under the next keys.        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Kinds,      \* "tls13" | "tls12"
          Autos,      \* 0: no automatic update; n: after n more data records of a
          Actors,     \* who acts
          Ops, Puts,  \* operations; what a misbehaving a writes
          Rooms,      \* how much the transport takes: "all", "none", "one" (record), "part" (of a record)
          MaxKU,      \* exploration bound on updates of one endpoint
          MaxQ        \* exploration bound on records in flight

Configs == {[kind |-> k, auto |-> n] : k \in Kinds, n \in Autos}
End0 == [q |-> <<>>, w |-> FALSE, tx |-> <<>>, rx |-> <<>>, dead |-> FALSE, die |-> 0, over |-> FALSE, left |-> 0, rd |-> 0, g |-> 0]
InitState(c) == [kind |-> c.kind, a |-> [End0 EXCEPT !.left = c.auto], b |-> End0]
Other(e) == IF e = "a" THEN "b" ELSE "a"
R(s, e, x, o) == [s |-> [s EXCEPT ![e] = x], out |-> o]
Min(m, n) == IF m < n THEN m ELSE n
Caps(room) == CASE room = "all" -> {9} [] room = "none" -> {0} [] room = "one" -> {1} [] OTHER -> {0, 1}
Front(q, j) == SubSeq(q, 1, j)
Rest(q, j) == SubSeq(q, j + 1, Len(q))
IsKU(r) == r \in {"ku0", "ku1"}
KUs(q) == {j \in 1..Len(q) : IsKU(q[j])}
Emit1(x, j) == [x EXCEPT !.q = Rest(@, j), !.tx = @ \o Front(x.q, j), !.g = @ + Cardinality(KUs(Front(x.q, j))),
                          !.left = IF KUs(Front(x.q, j)) # {} THEN 0 ELSE @]

(* what the application asks to be written is queued behind everything that waits; with automatic updates the *)
(* record that uses the key up is followed by a KeyUpdate                                                     *)
Seal(x) == LET y == [x EXCEPT !.q = Append(@, "d"), !.w = TRUE] IN
           IF KUs(x.q) # {} THEN [y EXCEPT !.left = 0]
           ELSE IF x.left = 1 THEN [y EXCEPT !.left = 0, !.q = Append(@, "ku0")]
           ELSE IF x.left > 1 THEN [y EXCEPT !.left = @ - 1] ELSE y
Data(q) == \E j \in 1..Len(q) : q[j] = "d"

Write(s, i) ==
   LET x == s[i.c] IN
   IF x.dead THEN {R(s, i.c, x, <<"dead", <<>>>>)}
   ELSE UNION { LET y == IF x.w THEN x ELSE Seal(x)
                    js == 0..Min(cap, Len(y.q)) IN
           \* written: its record is out
           { R(s, i.c, [Emit1(y, j) EXCEPT !.w = FALSE], <<"ok", Front(y.q, j)>>) : j \in {j \in js : ~Data(Rest(y.q, j))} }
           \* not all of what goes before it, or it, fits
           \cup { R(s, i.c, Emit1(y, j), <<"again", Front(y.q, j)>>) : j \in {j \in js : j = cap /\ Rest(y.q, j) # <<>>} }
           \cup (IF x.w THEN {} ELSE { R(s, i.c, Emit1(x, j), <<"again", Front(x.q, j)>>) : j \in {j \in 0..Min(cap, Len(x.q)) : j = cap /\ Rest(x.q, j) # <<>>} })
         : cap \in Caps(i.room) }

(* a fatal alert: what was sealed before goes first *)
AlertOf(k) == CASE k \in {"old", "new"} -> {20}
                [] k = "kubad" -> {47, 50}
                [] k \in {"kulong", "kuempty"} -> {50, 47}
                [] OTHER -> {10}

(* reading: what waits may be written first or not (an update is due only before the next data); then what has arrived *)
Die(s, i, x, em) ==
   IF i.room \in {"none", "part", "one"} THEN
        {R(s, i.c, x, <<IF i.op = "read" THEN "busy" ELSE "again", em>>)}
        \cup (IF i.room = "none" THEN {} ELSE {R(s, i.c, [x EXCEPT !.dead = TRUE, !.q = <<>>, !.tx = @ \o Front(x.q, j)], <<"fatal", em \o Front(x.q, j), x.die>>) : j \in 0..Len(x.q)})
   ELSE {R(s, i.c, [x EXCEPT !.dead = TRUE, !.q = <<>>, !.tx = @ \o Front(x.q, j)], <<"fatal", em \o Front(x.q, j), x.die>>) : j \in 0..Len(x.q)}
RECURSIVE Process(_, _, _, _)
Process(s, i, x, em) ==        \* x: the endpoint; em: what it has written in this call; room is i.room = "all" or "none"
   LET room == i.room # "none" IN
   (IF x.q # <<>> /\ ~room THEN {R(s, i.c, x, <<"busy", em>>)} ELSE {})
   \cup
   (IF x.rx = <<>> THEN {R(s, i.c, x, <<"again", em>>)}
    ELSE LET h == Head(x.rx)  y == [x EXCEPT !.rx = Tail(@)] IN
       IF h = "d" THEN {R(s, i.c, y, <<"data", em>>)}
       ELSE IF h = "ku0" THEN Process(s, i, [y EXCEPT !.rd = @ + 1], em)
       ELSE IF h = "ku1" THEN
            LET z == [y EXCEPT !.rd = @ + 1, !.q = Append(@, "ku0")]
                z2 == [y EXCEPT !.rd = @ + 1] IN
            (IF KUs(x.q) # {} THEN Process(s, i, z2, em) ELSE {})     \* the update that waits serves as the answer
            \cup (IF \E j \in KUs(x.q) : x.q[j] = "ku0" THEN {}
                  ELSE (IF room THEN Process(s, i, Emit1(z, Len(z.q)), em \o z.q) ELSE {}) \cup Process(s, i, z, em))
       ELSE UNION {Die(s, i, [y EXCEPT !.die = d, !.rx = <<>>], em) : d \in AlertOf(h)})

Read(s, i) ==
   LET x == s[i.c] IN
   IF x.dead THEN {R(s, i.c, x, <<"dead", <<>>>>)}
   ELSE Process(s, i, x, <<>>)
        \cup (IF i.room = "all" THEN UNION {Process(s, i, Emit1(x, j), Front(x.q, j)) : j \in 1..Len(x.q)} ELSE {})

KU(s, i) ==
   LET x == s[i.c]
       y == [x EXCEPT !.q = Append(@, IF i.t = 0 THEN "ku0" ELSE "ku1")] IN
   IF s.kind # "tls13" THEN {R(s, i.c, x, <<"unsupported">>)}
   ELSE IF x.dead \/ x.die # 0 \/ KUs(x.q) # {} THEN {R(s, i.c, x, <<"state">>)} \cup (IF i.t > 1 THEN {R(s, i.c, x, <<"param">>)} ELSE {})
   ELSE IF i.t > 1 THEN {R(s, i.c, x, <<"param">>)}
   ELSE {R(s, i.c, y, <<"ok">>)} \cup (IF x.w THEN {R(s, i.c, x, <<"state">>)} ELSE {})

Type(s, i) == LET x == s[i.c]  k == {x.q[j] : j \in KUs(x.q)} IN
   {R(s, i.c, x, <<"type", IF k = {} THEN 255 ELSE IF k = {"ku1"} THEN 1 ELSE 0>>)}

Deliver(s, i) ==
   LET x == s[i.c]  y == s[Other(i.c)] IN
   IF x.tx = <<>> THEN {}
   ELSE {[s |-> [s EXCEPT ![i.c] = [x EXCEPT !.tx = Tail(@)], ![Other(i.c)] = [y EXCEPT !.rx = IF y.dead THEN @ ELSE Append(@, Head(x.tx))]], out |-> <<>>]}

(* a peer with the right keys that writes what it should not *)
Put(s, i) ==
   LET x == s.a
       k == CASE i.k = "split" -> "ku0" [] i.k = "split1" -> "ku1" [] OTHER -> i.k IN
   IF x.over THEN {}
   ELSE {R(s, "a", [x EXCEPT !.tx = Append(@, k), !.over = (i.k \notin {"d", "ku0", "ku1", "split", "split1"})], <<>>)}

Export(s, i) == {R(s, i.c, s[i.c], <<"same">>)}

Outcomes(s, i) ==
   CASE i.op \in {"read", "write"} /\ s[i.c].die # 0 /\ ~s[i.c].dead -> Die(s, i, s[i.c], <<>>)
     [] i.op = "write" -> Write(s, i)
     [] i.op = "read" -> Read(s, i)
     [] i.op = "ku" -> KU(s, i)
     [] i.op = "type" -> Type(s, i)
     [] i.op = "deliver" -> Deliver(s, i)
     [] i.op = "put" -> Put(s, i)
     [] i.op = "export" -> Export(s, i)

Inputs(s) ==
   (IF "write" \in Ops THEN {[op |-> "write", c |-> c, room |-> r] : c \in {c \in Actors : Len(s[c].tx) < MaxQ}, r \in Rooms} ELSE {})
   \cup (IF "read" \in Ops THEN {[op |-> "read", c |-> c, room |-> r] : c \in {c \in Actors : Len(s[c].tx) < MaxQ}, r \in Rooms \cap {"all", "none"}} ELSE {})
   \cup (IF "ku" \in Ops THEN {[op |-> "ku", c |-> c, t |-> t] : c \in {c \in Actors : s[c].g < MaxKU}, t \in {0, 1}} ELSE {})
   \cup (IF "kubad" \in Ops THEN {[op |-> "ku", c |-> c, t |-> 2] : c \in Actors} ELSE {})
   \cup (IF "type" \in Ops THEN {[op |-> "type", c |-> c] : c \in Actors} ELSE {})
   \cup (IF "export" \in Ops THEN {[op |-> "export", c |-> c] : c \in Actors} ELSE {})
   \cup (IF "put" \in Ops /\ Len(s.a.tx) < MaxQ /\ s.b.rd <= MaxKU THEN {[op |-> "put", c |-> "a", k |-> k] : k \in Puts} ELSE {})
   \cup {[op |-> "deliver", c |-> c] : c \in {c \in {"a", "b"} : s[c].tx # <<>> /\ Len(s[Other(c)].rx) < MaxQ}}

(* the keys that protect a record are those of as many updates as came before it; no update is lost *)
Inv(s) == \A e \in {"a", "b"} :
             LET o == s[Other(e)] IN
             /\ (~s[e].dead /\ ~o.dead /\ "put" \notin Ops) => s[e].rd + Cardinality(KUs(s[e].rx)) + Cardinality(KUs(o.tx)) = o.g
             /\ Cardinality(KUs(s[e].q)) <= 2
(* a dead end writes nothing more *)
TransInv(s, i, o, t) == i.op \in {"write", "read"} /\ s[i.c].dead => t[i.c].tx = s[i.c].tx
==============================================================================
