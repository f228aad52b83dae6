-------------------------------- MODULE Lossy --------------------------------
(* A DTLS handshake between two ends seen from the network: opaque datagrams that may be delivered in any *)
(* order, more than once, or never; timers; forged datagrams.  What the ends may do with them is left open *)
(* (how many datagrams they answer with); what is required: nothing on the network makes an end fail, an   *)
(* end completes only after datagrams of the other arrived, completion is final, and once the network      *)
(* delivers again both complete and agree.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxN,    \* datagrams sent in answer to one event
          MaxQ     \* exploration bound: datagrams under way to one end

Configs == {[mode |-> "net"]}
End0 == [q |-> 0, got |-> 0, done |-> FALSE]
InitState(c) == [on |-> FALSE, over |-> FALSE, c |-> End0, s |-> End0]
Other(e) == IF e = "c" THEN "s" ELSE "c"
R(s, o) == [s |-> s, out |-> o]
Need(e) == IF e = "c" THEN 1 ELSE 2      \* the least number of the other's datagrams before completion

(* end e was given d datagrams of the other (m were consumed from its queue): it answers n and may complete *)
Step(s, e, d, m) ==
   {R([s EXCEPT ![e].got = IF @ + d > 2 THEN 2 ELSE @ + d, ![e].q = @ - m, ![Other(e)].q = @ + n, ![e].done = x], <<ToString(n), IF x THEN "done" ELSE "wait">>) :
      n \in 0..MaxN, x \in {y \in BOOLEAN : (s[e].done => y) /\ (y /\ ~s[e].done => d > 0 /\ s[e].got + d >= Need(e))}}

Outcomes(s, i) ==
   IF s.over THEN {} ELSE
   CASE i.op = "start" -> IF s.on THEN {} ELSE {R([s EXCEPT !.on = TRUE, !.s.q = n], <<ToString(n), "wait">>) : n \in 1..(MaxN + 1)}
     [] ~s.on -> {}
     [] i.op = "deliver" -> IF i.j >= s[i.e].q THEN {} ELSE Step(s, i.e, 1, IF i.keep THEN 0 ELSE 1)
     [] i.op = "all" -> IF s[i.e].q = 0 THEN {} ELSE Step(s, i.e, s[i.e].q, s[i.e].q)
     [] i.op = "drop" -> IF i.j >= s[i.e].q THEN {} ELSE {R([s EXCEPT ![i.e].q = @ - 1], <<"0", "lost">>)}
     [] i.op = "lose" -> {R([s EXCEPT ![i.e].q = 0], <<"0", "lost">>)}
     [] i.op = "timeout" -> Step(s, i.e, 0, 0)
     [] i.op = "forge" -> Step(s, i.e, 0, 0)      \* its own timers may run out meanwhile
     [] i.op = "settle" -> {R([s EXCEPT !.over = TRUE, !.c.done = TRUE, !.s.done = TRUE], <<"0", "agree">>)}

Inputs(s) ==
   IF s.over THEN {} ELSE IF ~s.on THEN {[op |-> "start"]} ELSE
   UNION {{[op |-> "deliver", e |-> e, j |-> j, keep |-> k] : j \in {x \in 0..2 : x < s[e].q}, k \in BOOLEAN} : e \in {x \in {"c", "s"} : s[Other(x)].q < MaxQ}}
   \cup {[op |-> "lose", e |-> e] : e \in {"c", "s"}} \cup {[op |-> "settle"]}
Inv(s) == s.over => s.c.done /\ s.s.done
TransInv(s, i, o, t) == \A e \in {"c", "s"} : s[e].done => t[e].done
=============================================================================
