------------------------------- MODULE Flight -------------------------------
(* The DTLS 1.2 / DTLCP handshake over a network that loses, repeats, reorders and re-fragments: flights of *)
(* messages, the reassembly of a flight in order, retransmission on timeout, and completion.                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Shapes,     \* handshake shapes
          MaxT,       \* timeouts per endpoint (exploration bound)
          Frags,      \* ways of cutting a message into fragments
          Bads,       \* kinds of datagrams that carry nothing authentic
          Ops

Configs == {[shape |-> x] : x \in Shapes}

F(who, u) == [who |-> who, u |-> u]
Flights(c) ==
   CASE c = "full"   -> <<F("c", <<"1CH">>), F("s", <<"2SH", "2CT", "2KX", "2DN">>), F("c", <<"3KX", "3CC", "3FN">>), F("s", <<"4TK", "4CC", "4FN">>)>>
     [] c = "rsa"    -> <<F("c", <<"1CH">>), F("s", <<"2SH", "2CT", "2DN">>), F("c", <<"3KX", "3CC", "3FN">>), F("s", <<"4TK", "4CC", "4FN">>)>>
     [] c = "tlcp"   -> <<F("c", <<"1CH">>), F("s", <<"2SH", "2CT", "2KX", "2DN">>), F("c", <<"3KX", "3CC", "3FN">>), F("s", <<"4CC", "4FN">>)>>
     [] c = "cookie" -> <<F("c", <<"1CH">>), F("s", <<"2HV">>), F("c", <<"3CH">>), F("s", <<"4SH", "4CT", "4KX", "4DN">>),
                          F("c", <<"5KX", "5CC", "5FN">>), F("s", <<"6TK", "6CC", "6FN">>)>>
     [] c = "mutual" -> <<F("c", <<"1CH">>), F("s", <<"2SH", "2CT", "2KX", "2CR", "2DN">>), F("c", <<"3CT", "3KX", "3CV", "3CC", "3FN">>), F("s", <<"4TK", "4CC", "4FN">>)>>
     [] c = "resume" -> <<F("c", <<"1CH">>), F("s", <<"2SH", "2CC", "2FN">>), F("c", <<"3CC", "3FN">>)>>
Loose == {"3CC", "3FN", "4CC", "4FN", "5CC", "5FN", "6CC", "6FN", "2CC", "2FN"}   \* may have to be sent again if they come too early

Other(e) == IF e = "c" THEN "s" ELSE "c"
End0 == [fl |-> 0, n |-> 0, st |-> {}, done |-> FALSE, t |-> 0]
InitState(c) == [shape |-> c.shape, c |-> End0, s |-> End0, over |-> FALSE]
R(s, o) == [s |-> s, out |-> o]

IndexOf(f, u) == CHOOSE k \in 1..Len(f) : f[k] = u
Has(f, u) == \E k \in 1..Len(f) : f[k] = u
Await(s, e) == IF s[e].fl = 0 THEN (IF e = "c" THEN 2 ELSE 1) ELSE s[e].fl + 1
FlightNo(s, u) == CHOOSE k \in 1..Len(Flights(s.shape)) : Has(Flights(s.shape)[k].u, u)

RECURSIVE Run(_, _, _)
Run(f, n, st) == IF n < Len(f) /\ f[n + 1] \in st THEN Run(f, n + 1, st) ELSE n

(* endpoint e takes unit u: set of [x, out] *)
Take(s, e, u) ==
   LET x == s[e]
       fs == Flights(s.shape)
       w == Await(s, e)
   IN
   IF (e = "c" /\ x.fl = 0) \/ FlightNo(s, u) > w \/ x.done \/ w > Len(fs) \/ FlightNo(s, u) < w \/ IndexOf(fs[w].u, u) <= x.n THEN
        \* seen before: nothing, or the last flight is sent again
        {[x |-> x, out |-> <<>>]} \cup (IF x.fl > 0 THEN {[x |-> x, out |-> fs[x.fl].u]} ELSE {})
   ELSE LET f == fs[w].u
            k == IndexOf(f, u)
            Keep == LET st == x.st \cup {u}  n == Run(f, x.n, st) IN
                    IF n = Len(f) THEN [x |-> [fl |-> IF w < Len(fs) THEN w + 1 ELSE x.fl, n |-> 0, st |-> {}, done |-> w >= Len(fs) - 1, t |-> x.t],
                                        out |-> IF w < Len(fs) THEN fs[w + 1].u ELSE <<>>]
                    ELSE [x |-> [x EXCEPT !.n = n, !.st = st], out |-> <<>>]
        IN {Keep} \cup (IF Keep.x.done /\ ~x.done /\ Keep.out # <<>> THEN {[Keep EXCEPT !.out = @ \o @], [Keep EXCEPT !.out = @ \o @ \o @]} ELSE {})   \* answers repeats it kept
           \cup (IF u \in Loose /\ k > x.n + 1 THEN {[x |-> x, out |-> <<>>]} ELSE {})

RECURSIVE TakeAll(_, _, _, _)
TakeAll(s, e, us, acc) ==
   IF us = <<>> THEN {R(s, <<acc, IF s[e].done THEN "done" ELSE "wait">>)}
   ELSE UNION {TakeAll([s EXCEPT ![e] = r.x], e, Tail(us), acc \o r.out) : r \in Take(s, e, Head(us))}

SentTo(s, e) == UNION {{Flights(s.shape)[k].u[j] : j \in 1..Len(Flights(s.shape)[k].u)} : k \in {k \in 1..Len(Flights(s.shape)) : Flights(s.shape)[k].who # e /\ k <= s[Other(e)].fl}}
St(s, e) == IF s[e].done THEN "done" ELSE "wait"

Outcomes(s, i) ==
   IF s.over THEN {} ELSE
   CASE i.op = "start" -> IF s.c.fl # 0 THEN {} ELSE {R([s EXCEPT !.c.fl = 1], <<Flights(s.shape)[1].u, "wait">>)}
     [] i.op = "deliver" -> IF (\E k \in 1..Len(i.us) : i.us[k] \notin SentTo(s, i.e)) THEN {} ELSE TakeAll(s, i.e, i.us, <<>>)
     [] i.op = "frag" -> IF i.us[1] \notin SentTo(s, i.e) THEN {}          \* the whole message, in fragments
                         ELSE IF i.k = "part" THEN TakeAll(s, i.e, <<>>, <<>>)   \* not all of it: nothing happens
                                                   \cup (IF FlightNo(s, i.us[1]) < Await(s, i.e) /\ s[i.e].fl > 0 THEN {R(s, <<Flights(s.shape)[s[i.e].fl].u, St(s, i.e)>>)} ELSE {})
                         ELSE LET t == TakeAll(s, i.e, i.us, <<>>) IN
                              t \cup (IF s.shape = "cookie" /\ i.us = <<"1CH">> THEN {R(r.s, <<r.out[1] \o r.out[1], r.out[2]>>) : r \in t} ELSE {})
     [] i.op = "bad" -> {R(s, <<<<>>, St(s, i.e)>>)}
     [] i.op = "timeout" ->
          LET x == s[i.e] IN
          IF x.done \/ x.fl = 0 THEN {R([s EXCEPT ![i.e].t = @ + 1], <<<<>>, St(s, i.e)>>)}
               \cup (IF x.done /\ x.fl = Len(Flights(s.shape)) THEN {R([s EXCEPT ![i.e].t = @ + 1], <<Flights(s.shape)[x.fl].u, "done">>)} ELSE {})
          ELSE {R([s EXCEPT ![i.e].t = @ + 1], <<Flights(s.shape)[x.fl].u, "wait">>)}
               \cup (IF Flights(s.shape)[x.fl].u = <<"2HV">> THEN {R([s EXCEPT ![i.e].t = @ + 1], <<<<>>, "wait">>)} ELSE {})
     [] i.op = "settle" -> \* the network becomes reliable: both complete and agree
          IF s.c.fl = 0 THEN {} ELSE {R([s EXCEPT !.over = TRUE, !.c.done = TRUE, !.s.done = TRUE], <<"agree">>)}

Whole(s, e) == {Flights(s.shape)[k].u : k \in {k \in 1..Len(Flights(s.shape)) : Flights(s.shape)[k].who # e /\ k <= s[Other(e)].fl}}
IsHs(u) == u \notin Loose
Inputs(s) ==
   IF s.over THEN {} ELSE
   IF s.c.fl = 0 THEN {[op |-> "start"]} ELSE
   UNION {
      {[op |-> "deliver", e |-> e, us |-> <<u>>] : u \in SentTo(s, e)}
      \cup {[op |-> "deliver", e |-> e, us |-> f] : f \in Whole(s, e)}
      \cup (IF "frag" \in Ops THEN {[op |-> "frag", e |-> e, us |-> <<u>>, k |-> k] : u \in {v \in SentTo(s, e) : IsHs(v)}, k \in Frags} ELSE {})
      \cup (IF "bad" \in Ops THEN {[op |-> "bad", e |-> e, k |-> k] : k \in Bads} ELSE {})
      \cup (IF s[e].t < MaxT THEN {[op |-> "timeout", e |-> e]} ELSE {}) : e \in {"c", "s"}}
   \cup (IF "settle" \in Ops THEN {[op |-> "settle"]} ELSE {})

(* nobody completes before everything the other sent up to its last flight was taken; the ends stay within one flight *)
Inv(s) ==
   LET fs == Flights(s.shape) IN
   /\ s.over \/ \A e \in {"c", "s"} : s[e].done => s[e].fl >= Len(fs) - 1
   /\ s.over \/ (s.c.fl <= s.s.fl + 1 /\ s.s.fl <= s.c.fl + 1)
   /\ \A e \in {"c", "s"} : s[e].fl > 0 => fs[s[e].fl].who = e
TransInv(s, i, o, t) == \A e \in {"c", "s"} : t[e].fl >= s[e].fl /\ (s[e].done => t[e].done)
=============================================================================
