-------------------------------- MODULE Dgram --------------------------------
(* An established DTLS/DTLCP connection, one direction: the sender protects records with consecutive        *)
(* sequence numbers; the network may lose, reorder and repeat datagrams, and an attacker may send anything. *)
(* A record is delivered at most once; it is delivered if it was not before and is less than 64 behind the  *)
(* newest record delivered. Anything that is not exactly a record the sender protected changes nothing.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Gaps,      \* sequence number distance between records that the network keeps
          MaxCap,    \* kept records (exploration bound)
          Bads,      \* kinds of datagrams an attacker sends
          Ops, Sizes

W == 64
Near == 32000      \* DTLS 1.3 sends 16 bits of the sequence number: a record that is further ahead need not be recognised
Configs == {[x |-> 0]}
InitState(c) == [n |-> 0, cap |-> <<>>, seen |-> {}, top |-> 0, shut |-> FALSE, end |-> FALSE]

Fresh(s, j) == LET q == s.cap[j].q IN j \notin s.seen /\ (q > s.top \/ s.top - q < W)
Max(x, y) == IF x > y THEN x ELSE y

(* one datagram holding the records of the slots js *)
RECURSIVE Take(_, _, _)
Take(s, js, acc) ==
   IF js = <<>> \/ s.end THEN {[s |-> s, out |-> IF s.end THEN Append(acc, "closed") ELSE acc]}
   ELSE LET j == Head(js) IN
        IF ~Fresh(s, j) THEN Take(s, Tail(js), acc)
        ELSE LET s1 == [s EXCEPT !.seen = @ \cup {j}, !.top = Max(@, s.cap[j].q), !.end = s.cap[j].k = "close"] IN
             Take(s1, Tail(js), IF s.cap[j].k = "d" THEN Append(acc, ToString(j)) ELSE acc)
             \cup (IF s.cap[j].q > s.top + Near THEN Take(s, Tail(js), acc) ELSE {})

Outcomes(s, i) ==
   CASE i.op = "send" ->      \* i.g - 1 records that are lost, then one that is kept
          IF s.shut THEN {} ELSE
          {[s |-> [s EXCEPT !.n = @ + i.g, !.cap = Append(@, [q |-> s.n + i.g, k |-> i.k]), !.shut = i.k = "close"], out |-> <<"ok">>]}
     [] i.op = "deliver" ->
          IF \E x \in 1..Len(i.js) : i.js[x] > Len(s.cap) THEN {} ELSE Take(s, i.js, <<>>)
     [] i.op = "bad" ->
          IF i.j > Len(s.cap) THEN {} ELSE {[s |-> s, out |-> IF s.end THEN <<"closed">> ELSE <<>>]}
     [] i.op = "old" ->     \* datagrams of the handshake again
          {[s |-> s, out |-> IF s.end THEN <<"closed">> ELSE <<>>]}
     [] i.op = "oldback" -> {[s |-> s, out |-> <<>>]}
     [] i.op = "back" ->      \* a record in the other direction
          IF s.end \/ s.shut THEN {} ELSE {[s |-> s, out |-> <<"ok">>]}

Inputs(s) ==
   (IF ~s.shut /\ Len(s.cap) < MaxCap THEN {[op |-> "send", g |-> g, k |-> "d", z |-> z] : g \in Gaps, z \in Sizes} ELSE {})
   \cup (IF "close" \in Ops /\ ~s.shut /\ Len(s.cap) < MaxCap THEN {[op |-> "send", g |-> 1, k |-> "close", z |-> 0]} ELSE {})
   \cup {[op |-> "deliver", js |-> <<j>>] : j \in 1..Len(s.cap)}
   \cup (IF "two" \in Ops THEN {[op |-> "deliver", js |-> <<j, k>>] : j \in 1..Len(s.cap), k \in 1..Len(s.cap)} ELSE {})
   \cup (IF "bad" \in Ops THEN {[op |-> "bad", k |-> k, j |-> j] : k \in Bads, j \in 1..Len(s.cap)} ELSE {})
   \cup (IF "old" \in Ops THEN {[op |-> "old"], [op |-> "oldback"]} ELSE {})
   \cup (IF "back" \in Ops /\ ~s.end /\ ~s.shut THEN {[op |-> "back"]} ELSE {})

Inv(s) == s.n >= s.top /\ s.seen \subseteq 1..Len(s.cap) /\ \A j \in s.seen : s.cap[j].q <= s.top
TransInv(s, i, o, t) ==
   /\ \A j \in s.seen : \A x \in 1..Len(o) : o[x] # ToString(j)        \* never twice
   /\ \A j \in 1..Len(t.cap) : (\E x \in 1..Len(o) : o[x] = ToString(j)) => j \in t.seen
   /\ s.seen \subseteq t.seen
   /\ (i.op \in {"bad", "old", "oldback"} => t = s)
=============================================================================
