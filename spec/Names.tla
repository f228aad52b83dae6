------------------------------- MODULE Names -------------------------------
(* Does a certificate name the identity the application asks for? All texts are sequences of byte values; the rules of        *)
(* RFC 9525 (whole left-most label '*', three labels or more), of RFC 6125 (one '*' anywhere in the left-most label, on        *)
(* request), the URI and SRV identifiers and the textual IPv4 and IPv6 addresses are written out.                              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Aspect, Depth

Dot == 46  Star == 42  Colon == 58  Slash == 47  At == 64  Under == 95
Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
Same(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Lower(x[k]) = Lower(y[k])
Has(x, b) == \E k \in 1..Len(x) : x[k] = b
(* the first position of b in x, 0 if there is none *)
At1(x, b) == IF Has(x, b) THEN CHOOSE k \in 1..Len(x) : x[k] = b /\ \A j \in 1..k-1 : x[j] # b ELSE 0
AtN(x, b) == IF Has(x, b) THEN CHOOSE k \in 1..Len(x) : x[k] = b /\ \A j \in k+1..Len(x) : x[j] # b ELSE 0
From(x, k) == SubSeq(x, k, Len(x))
Count(x, b) == Cardinality({k \in 1..Len(x) : x[k] = b})
RECURSIVE Split(_, _)
Split(x, b) == LET k == At1(x, b) IN IF k = 0 THEN <<x>> ELSE <<SubSeq(x, 1, k - 1)>> \o Split(From(x, k + 1), b)

---------------------------------------------------------------------------
(* host names: p is the name in the certificate, h the one asked for *)
OneStar(p, h) ==     (* p has exactly one star, which stands for any characters, also none *)
   LET k == At1(p, Star) IN Len(h) >= Len(p) - 1 /\ Same(SubSeq(p, 1, k - 1), SubSeq(h, 1, k - 1))
                            /\ Same(From(p, k + 1), SubSeq(h, Len(h) - (Len(p) - k) + 1, Len(h)))
Tail1(x) == From(x, At1(x, Dot))
Strict(p, h) ==
   IF ~Has(p, Star) THEN Same(p, h)
   ELSE p[1] = Star /\ Len(p) > 1 /\ p[2] = Dot /\ Count(h, Dot) >= 2 /\ Same(From(p, 2), Tail1(h))
Partial(p, h) ==
   LET P == Split(p, Dot)  H == Split(h, Dot)
   IN /\ Len(P) = Len(H)
      /\ \A k \in 2..Len(P) : Same(P[k], H[k]) /\ Count(P[k], Star) = 0
      /\ (CASE Count(P[1], Star) = 0 -> Same(P[1], H[1])
            [] Count(P[1], Star) = 1 -> OneStar(P[1], H[1])
            [] OTHER -> FALSE)
Host(partial, p, h) == p # <<>> /\ h # <<>> /\ ~Has(p, 0) /\ ~Has(h, 0) /\ (IF partial THEN Partial(p, h) ELSE Strict(p, h))

---------------------------------------------------------------------------
(* URI and service identifiers *)
Digit(b) == b >= 48 /\ b <= 57
RECURSIVE Dec(_, _)
Dec(x, acc) == IF x = <<>> \/ acc > 70000 THEN acc ELSE Dec(Tail(x), acc * 10 + (Head(x) - 48))
Number(x, max) == x # <<>> /\ (\A k \in 1..Len(x) : Digit(x[k])) /\ Dec(x, 0) <= max
Uri(u) ==
   LET c == At1(u, Colon)
       r == From(u, c + 1)
       auth == Len(r) >= 2 /\ r[1] = Slash /\ r[2] = Slash
       a == IF auth THEN From(r, 3) ELSE r
       ends == {k \in 1..Len(a) : a[k] \in ({63, 35, Slash} \cup (IF auth THEN {} ELSE {59}))}
       b == IF ends = {} THEN a ELSE SubSeq(a, 1, (CHOOSE k \in ends : \A j \in ends : k <= j) - 1)
       d == From(b, AtN(b, At) + 1)
       q == At1(d, Colon)
       host == IF q = 0 THEN d ELSE SubSeq(d, 1, q - 1)
   IN IF c < 2 \/ host = <<>> \/ (q > 0 /\ ~Number(From(d, q + 1), 65535)) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, kind |-> SubSeq(u, 1, c - 1), host |-> host]
Srv(u) ==
   LET k == At1(u, Dot) IN
   IF u = <<>> \/ u[1] # Under \/ k < 3 \/ k = Len(u) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, kind |-> SubSeq(u, 2, k - 1), host |-> From(u, k + 1)]
Service(partial, p, h) == p.ok /\ h.ok /\ Same(p.kind, h.kind) /\ Host(partial, p.host, h.host)

---------------------------------------------------------------------------
(* textual addresses; <<>> when the text is none *)
V4(x) == LET q == Split(x, Dot) IN
   IF Len(q) = 4 /\ \A k \in 1..4 : Len(q[k]) <= 3 /\ Number(q[k], 255) /\ (Len(q[k]) = 1 \/ q[k][1] # 48) THEN [k \in 1..4 |-> Dec(q[k], 0)] ELSE <<>>
Hex(b) == IF Digit(b) THEN b - 48 ELSE IF b >= 97 /\ b <= 102 THEN b - 87 ELSE IF b >= 65 /\ b <= 70 THEN b - 55 ELSE 99
RECURSIVE HexOf(_, _)
HexOf(x, acc) == IF x = <<>> THEN acc ELSE HexOf(Tail(x), acc * 16 + Hex(Head(x)))
Group(x) == Len(x) \in 1..4 /\ \A k \in 1..Len(x) : Hex(x[k]) < 16
(* a colon separated run of groups, the last one possibly an IPv4 address (only where 'last' says so); [ok, b] *)
Run(x, last) ==
   IF x = <<>> THEN [ok |-> TRUE, b |-> <<>>]
   ELSE LET q == Split(x, Colon)
            v4 == IF last THEN V4(q[Len(q)]) ELSE <<>>
            n == IF v4 = <<>> THEN Len(q) ELSE Len(q) - 1
            RECURSIVE Bytes(_)
            Bytes(k) == IF k > n THEN v4 ELSE <<HexOf(q[k], 0) \div 256, HexOf(q[k], 0) % 256>> \o Bytes(k + 1)
        IN IF \A k \in 1..n : Group(q[k]) THEN [ok |-> TRUE, b |-> Bytes(1)] ELSE [ok |-> FALSE, b |-> <<>>]
V6(x) ==
   LET dc == {k \in 1..Len(x)-1 : x[k] = Colon /\ x[k + 1] = Colon} IN
   IF dc = {} THEN LET r == Run(x, TRUE) IN IF r.ok /\ Len(r.b) = 16 THEN r.b ELSE <<>>
   ELSE LET k == CHOOSE k \in dc : \A j \in dc : k <= j
            l == Run(SubSeq(x, 1, k - 1), FALSE)  r == Run(From(x, k + 2), TRUE)
        IN IF Cardinality(dc) > 1 \/ ~l.ok \/ ~r.ok \/ Len(l.b) + Len(r.b) > 14 THEN <<>>
           ELSE l.b \o [j \in 1..(16 - Len(l.b) - Len(r.b)) |-> 0] \o r.b
Addr(x) == IF Has(x, Colon) THEN V6(x) ELSE V4(x)

---------------------------------------------------------------------------
(* the certificate: its common names in order and its alternative names *)
Alt(c, kind) == {c.san[k].v : k \in {j \in 1..Len(c.san) : c.san[j].k = kind}}
Names(c, i) ==
   CASE i.type = "dns" -> IF Alt(c, "dns") # {} THEN \E p \in Alt(c, "dns") : Host(i.partial, p, i.v)
                          ELSE c.cn # <<>> /\ Host(i.partial, c.cn[1], i.v)
     [] i.type = "ip"  -> Addr(i.v) # <<>> /\ Addr(i.v) \in Alt(c, "ip")
     [] i.type = "uri" -> ~Has(i.v, 0) /\ \E p \in Alt(c, "uri") : Service(i.partial, Uri(p), Uri(i.v))
     [] i.type = "srv" -> ~Has(i.v, 0) /\ \E p \in Alt(c, "srv") : Service(i.partial, Srv(p), Srv(i.v))

(* the reference is empty, has a zero byte, its declared length is not its length: never accepted *)
Verdict(c, i) == i.dl = 0 /\ Names(c, i)

---------------------------------------------------------------------------
(* a small universe of names: up to three labels *)
A == 97  B == 98
PatLabels == {<<>>, <<A>>, <<B>>, <<Star>>, <<A, Star>>, <<Star, A>>, <<A, Star, B>>, <<Star, Star>>}
RefLabels == {<<>>, <<A>>, <<65>>, <<B>>, <<A, B>>, <<A, A, B>>}
Join(q) == IF Len(q) = 1 THEN q[1] ELSE IF Len(q) = 2 THEN q[1] \o <<Dot>> \o q[2] ELSE q[1] \o <<Dot>> \o q[2] \o <<Dot>> \o q[3]
Up3(L) == {Join(<<x>>) : x \in L} \cup {Join(<<x, y>>) : x \in L, y \in L} \cup {Join(<<x, y, z>>) : x \in L, y \in L, z \in L}
Small == {[cn |-> <<>>, san |-> <<[k |-> "dns", v |-> p]>>] : p \in Up3(PatLabels) \ {<<>>}}
Refs == {v \in Up3(RefLabels) : v # <<>> /\ v[1] # Dot}      (* an empty left-most label asked for is left open *)
Configs == CASE Aspect = "host" -> Small
             [] OTHER -> {[cn |-> <<>>, san |-> <<>>]}
InitState(c) == [c |-> c, n |-> 0]
Inputs(s) == IF s.n >= Depth \/ Aspect # "host" THEN {} ELSE {[op |-> "all", partial |-> p] : p \in BOOLEAN}
Sure(c, p) == {v \in Refs : Verdict(c, [type |-> "dns", partial |-> p, v |-> v, dl |-> 0])}
(* "all" only explores; "list": the verdicts for a list of references *)
Outcomes(s, i) ==
   LET t == [s EXCEPT !.n = @ + 1] IN
   IF i.op = "all" THEN {[s |-> t, out |-> <<"all">>]}
   ELSE {[s |-> t, out |-> <<"list", [k \in 1..Len(i.vs) |-> Verdict(s.c, [type |-> i.type, partial |-> i.partial, v |-> i.vs[k], dl |-> i.dl])]>>]}
Inv(s) == TRUE
(* what the rules must give whatever the names are *)
TransInv(s, i, o, t) ==
   i.op = "all" =>
     /\ \A v \in Sure(s.c, i.partial) : LET p == s.c.san[1].v IN
          /\ Len(Split(p, Dot)) = Len(Split(v, Dot))                                     (* a star never spans a dot *)
          /\ (~Has(p, Star) => Same(p, v))                                               (* without a star: equal up to case *)
          /\ \A k \in 2..Len(Split(v, Dot)) : Same(Split(p, Dot)[k], Split(v, Dot)[k])   (* only the left-most label varies *)
          /\ (i.partial \/ ~Has(p, Star) \/ Len(Split(v, Dot)) >= 3)
     /\ (~i.partial => \A v \in Sure(s.c, FALSE) : v \in Sure(s.c, TRUE) \/ Count(s.c.san[1].v, Star) > 1)
=============================================================================
