-------------------------------- MODULE Reneg --------------------------------
(* Renegotiation on an established TLS 1.2 / TLCP connection (RFC 5746).                                        *)
(* Two endpoints c and s with data under way in both directions ("pair"), or one endpoint facing an independent *)
(* peer that tells right and wrong things about the handshake before ("forge").                                 *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Configs0,   \* the configurations
          Ops, Ris,   \* operations; what the peer says in renegotiation_info
          MaxQ, MaxEp \* exploration bounds

Configs == Configs0
InitState(c) == [c |-> c, p |-> {}, n |-> 0, ep |-> 0, dead |-> {}, tx |-> [c |-> 0, s |-> 0], w |-> [c |-> FALSE, s |-> FALSE]]
Other(e) == IF e = "c" THEN "s" ELSE "c"

(* ---------------------------------------------------------------- two endpoints *)
Sup(c, e) == IF e = "c" THEN c.sc ELSE c.ss
\* what an endpoint has started leads to a renegotiation
Good(c, e) == Sup(c, Other(e)) /\ (e = "c" => c.al)

Rn(s, i) ==
   IF i.c \in s.dead THEN {[s |-> s, out |-> <<x>>] : x \in {"dead", "busy", "off"}}
   ELSE IF ~Sup(s.c, i.c) THEN {[s |-> s, out |-> <<"off">>]}
   ELSE {[s |-> [s EXCEPT !.p = @ \cup {i.c}, !.n = @ + 1], out |-> <<"ok">>]}
        \cup (IF s.p # {} THEN {[s |-> s, out |-> <<"busy">>]} ELSE {})

Bad(s) == \E e \in s.p : ~Good(s.c, e)
Ends(s, e) == IF Bad(s) \/ s.dead # {} THEN {[s |-> [s EXCEPT !.dead = @ \cup {e}], out |-> <<x>>] : x \in {"fatal", "dead"}} ELSE {}

\* who writes in a renegotiation has no place for data that is still under way: the connection may fail, but loses nothing silently
CrossedAt(s, e) == s.p # {} /\ s.tx[Other(e)] > 0
Crossed(s, e) == IF CrossedAt(s, e) THEN {[s |-> [s EXCEPT !.dead = @ \cup {e}], out |-> <<"fatal">>]} ELSE {}

Write(s, i) ==
   IF i.c \in s.dead THEN {[s |-> s, out |-> <<"dead">>]}
   ELSE {[s |-> [s EXCEPT !.tx[i.c] = @ + 1, !.w[i.c] = FALSE], out |-> <<"ok">>]}
        \cup (IF s.p # {} THEN {[s |-> [s EXCEPT !.w[i.c] = TRUE], out |-> <<"again">>]} ELSE {})
        \cup Ends(s, i.c) \cup Crossed(s, i.c)
Read(s, i) ==
   LET o == Other(i.c) IN
   IF i.c \in s.dead THEN {[s |-> s, out |-> <<"dead">>]}
   ELSE (IF s.tx[o] > 0 THEN {[s |-> [s EXCEPT !.tx[o] = @ - 1], out |-> <<"data">>]} ELSE {})
        \cup (IF s.tx[o] = 0 \/ s.p # {} THEN {[s |-> s, out |-> <<"again">>]} ELSE {})
        \cup Ends(s, i.c)
(* both read and retry until nothing moves: <<state, all data arrived, renegotiations, keys agree, keys are new>> *)
Settle(s, i) ==
   LET up(d) == [s |-> [s EXCEPT !.ep = @ + d, !.p = {}, !.n = 0, !.tx = [c |-> 0, s |-> 0], !.w = [c |-> FALSE, s |-> FALSE]],
                 out |-> <<"up", TRUE, d, TRUE, d > 0>>]
       dead == [s |-> [s EXCEPT !.dead = {"c", "s"}], out |-> <<"dead">>] IN
   IF s.dead # {} THEN {dead}
   ELSE IF s.p = {} THEN {up(0)}
   ELSE (IF \E e \in s.p : Good(s.c, e) THEN {up(d) : d \in 1..s.n} ELSE {}) \cup (IF Bad(s) \/ (\E e \in {"c", "s"} : s.w[e] /\ (CrossedAt(s, e) \/ s.w[Other(e)])) THEN {dead} ELSE {})

(* ---------------------------------------------------------------- an independent peer *)
(* <<result, what the endpoint itself says about the handshake before, data passes>>                            *)
Go(s, i) ==
   LET c == s.c
       stay(x) == {[s |-> s, out |-> <<x, TRUE, TRUE>>]}
       up == {[s |-> [s EXCEPT !.ep = @ + 1], out |-> <<"up", TRUE, TRUE>>]}
       no == {[s |-> [s EXCEPT !.dead = {"c", "s"}], out |-> <<"refused", TRUE, FALSE>>]} IN
   IF s.dead # {} THEN {[s |-> s, out |-> <<"dead", TRUE, FALSE>>]}
   ELSE IF i.by = "lib" /\ (~c.sup \/ c.pre = "none") THEN stay("off")
   ELSE IF i.by = "peer" /\ (~c.sup \/ c.pre = "none" \/ (c.role = "srv" /\ ~c.al)) THEN stay("warned") \cup no
   ELSE IF i.v = "ok" THEN up ELSE no

Outcomes(s, i) ==
   CASE i.op = "rn" -> Rn(s, i)
     [] i.op = "write" -> Write(s, i)
     [] i.op = "read" -> Read(s, i)
     [] i.op = "settle" -> Settle(s, i)
     [] i.op = "go" -> Go(s, i)

Inputs(s) ==
   IF s.c.part = "pair" THEN
      (IF s.ep < MaxEp /\ s.n < 2 THEN {[op |-> "rn", c |-> c] : c \in {"c", "s"}} ELSE {})
      \cup {[op |-> "write", c |-> c] : c \in {c \in {"c", "s"} : s.tx[c] < MaxQ}}
      \cup {[op |-> "read", c |-> c] : c \in {"c", "s"}}
      \cup (IF s.p # {} \/ s.dead # {} THEN {[op |-> "settle"]} ELSE {})
   ELSE IF s.ep < MaxEp THEN {[op |-> "go", by |-> b, v |-> v] : b \in {"lib", "peer"}, v \in Ris} ELSE {}

(* nothing is renegotiated unless both ends want it, and never with a peer that does not prove it was there before *)
Inv(s) == s.ep > 0 => IF s.c.part = "pair" THEN s.c.sc /\ s.c.ss ELSE s.c.sup /\ s.c.pre # "none"
TransInv(s, i, o, t) ==
   /\ t.ep >= s.ep
   /\ i.op = "go" /\ t.ep > s.ep => i.v = "ok"
   /\ s.dead \subseteq t.dead
   /\ s.dead # {} => t.ep = s.ep
==============================================================================
