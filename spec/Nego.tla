-------------------------------- MODULE Nego --------------------------------
(* Parameter negotiation: what two endpoints with given policies must agree on, or why they must not      *)
(* connect. The configuration is the pair of policies; one step connects them over a perfect network,     *)
(* or over one in which an attacker rewrites a hello message.                                              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Aspect, Depth

Range(q) == {q[k] : k \in DOMAIN q}
Suite == [ T1 |-> [v |-> 13, kx |-> "ecdhe", auth |-> "any", cbc |-> FALSE],
           T2 |-> [v |-> 13, kx |-> "ecdhe", auth |-> "any", cbc |-> FALSE],
           T3 |-> [v |-> 13, kx |-> "ecdhe", auth |-> "any", cbc |-> FALSE],
           EG |-> [v |-> 12, kx |-> "ecdhe", auth |-> "ec", cbc |-> FALSE],
           EC |-> [v |-> 12, kx |-> "ecdhe", auth |-> "ec", cbc |-> TRUE],
           RG |-> [v |-> 12, kx |-> "ecdhe", auth |-> "rsa", cbc |-> FALSE],
           RC |-> [v |-> 12, kx |-> "ecdhe", auth |-> "rsa", cbc |-> TRUE],
           DG |-> [v |-> 12, kx |-> "dhe", auth |-> "rsa", cbc |-> FALSE],
           KG |-> [v |-> 12, kx |-> "rsa", auth |-> "rsa", cbc |-> FALSE],
           KC |-> [v |-> 12, kx |-> "rsa", auth |-> "rsa", cbc |-> TRUE] ]
Sig == [ ec256 |-> [key |-> "ec", v13 |-> TRUE, cv |-> "p256"], ec384 |-> [key |-> "ec", v13 |-> TRUE, cv |-> "p384"],
         pss256 |-> [key |-> "rsa", v13 |-> TRUE, cv |-> ""], pss384 |-> [key |-> "rsa", v13 |-> TRUE, cv |-> ""],
         pk256 |-> [key |-> "rsa", v13 |-> FALSE, cv |-> ""], pk384 |-> [key |-> "rsa", v13 |-> FALSE, cv |-> ""] ]
Only13 == {"hyb"}             \* groups defined for TLS 1.3 only

Base == [dg |-> FALSE, cmin |-> 12, cmax |-> 13, smin |-> 12, smax |-> 13, fb |-> FALSE,
         cs |-> <<"T1", "EG", "RG">>, ss |-> <<"T1", "EG", "RG">>, pref |-> FALSE, creds |-> <<"ec">>,
         cg |-> <<"x25519", "p256">>, sg |-> <<"x25519", "p256">>,
         csig |-> <<"ec256", "pss256", "pk256">>, ssig |-> <<"ec256", "pss256", "pk256">>,
         cems |-> 0, sems |-> 0, cetm |-> TRUE, setm |-> TRUE, calpn |-> <<>>, salpn |-> <<>>, hasalpn |-> FALSE, alpnack |-> TRUE,
         sni |-> "none", scb |-> "none", crl |-> 0, srl |-> 0, mitm |-> "none"]

Seqs(S, n) == UNION {{q \in [1..k -> S] : \A a, b \in 1..k : a # b => q[a] # q[b]} : k \in 1..n}
Vers == {r \in (12..13) \X (12..13) : r[1] <= r[2]}
Only(c, v) == [c EXCEPT !.cmin = v, !.cmax = v, !.smin = v, !.smax = v]

VerConfigs == {[Base EXCEPT !.cmin = a[1], !.cmax = a[2], !.smin = b[1], !.smax = b[2], !.fb = f, !.dg = d] :
                 a \in Vers, b \in Vers, f \in BOOLEAN, d \in BOOLEAN}
SuiteConfigs ==
    {[Only(Base, 12) EXCEPT !.cs = q, !.ss = r, !.pref = p, !.creds = k] :
        q \in Seqs({"EG", "RG", "KC"}, 3), r \in Seqs({"EG", "RG", "KC"}, 3), p \in BOOLEAN, k \in {<<"ec">>, <<"rsa">>, <<"ec", "rsa">>}}
    \cup {[Only(Base, 13) EXCEPT !.cs = q, !.ss = r, !.pref = p] : q \in Seqs({"T1", "T2", "T3"}, 3), r \in Seqs({"T1", "T2", "T3"}, 3), p \in BOOLEAN}
GroupConfigs ==
    {[Only(Base, v) EXCEPT !.cg = q, !.sg = r, !.pref = p, !.creds = <<"rsa">>, !.cs = <<"T1", "RG", "KG">>, !.ss = <<"T1", "RG">>] :
        q \in Seqs({"x25519", "p384", "hyb"}, 3), r \in Seqs({"x25519", "p384", "hyb"}, 3), p \in BOOLEAN, v \in 12..13}
SigConfigs ==
    {[Only(Base, v) EXCEPT !.csig = q, !.ssig = r, !.pref = p, !.creds = k] :
        q \in Seqs({"ec256", "ec384", "pss256", "pk256"}, 2), r \in Seqs({"ec256", "pss256", "pss384", "pk256"}, 2), p \in BOOLEAN,
        v \in 12..13, k \in {<<"ec">>, <<"rsa">>, <<"ec", "rsa">>}}
ExtConfigs ==
    {[Only(Base, v) EXCEPT !.cems = a, !.sems = b, !.cetm = e, !.setm = f, !.cs = <<"T1", s>>, !.ss = <<"T1", s>>] :
        v \in 12..13, a \in -1..1, b \in -1..1, e \in BOOLEAN, f \in BOOLEAN, s \in {"EG", "EC"}}
    \cup {[Only(Base, v) EXCEPT !.calpn = a, !.salpn = b, !.hasalpn = h, !.alpnack = k, !.dg = d] :
        v \in 12..13, a \in {<<>>, <<"a">>, <<"b", "a">>, <<"a", "c", "b">>}, b \in {<<"a">>, <<"a", "b">>, <<"b", "a">>, <<"d">>}, h \in BOOLEAN,
        k \in BOOLEAN, d \in BOOLEAN}
    \cup {[Only(Base, v) EXCEPT !.sni = a, !.scb = b] : v \in 12..13, a \in {"none", "host"}, b \in {"none", "ok", "noack", "fatal"}}
    \cup {[Only(Base, v) EXCEPT !.crl = a, !.srl = b, !.cs = <<"T1", s>>, !.ss = <<"T1", s>>] : v \in 12..13, a \in {0, 64, 500, 16384, 16385},
          b \in {0, 65, 4000, 16384, 16385}, s \in {"EG", "EC"}}
MitmConfigs ==
    {[Base EXCEPT !.cmin = a[1], !.cmax = a[2], !.smin = b[1], !.smax = b[2], !.mitm = m, !.cs = <<"T1", "T2", "EG", "EC">>, !.ss = <<"T2", "T1", "EC", "EG">>,
                  !.calpn = <<"a", "b">>, !.salpn = <<"b", "a">>, !.hasalpn = TRUE, !.sni = "host", !.scb = "ok", !.crl = 1000, !.srl = 900] :
        a \in Vers, b \in Vers, m \in {"ver", "suite", "ems", "alpn", "sni", "groups", "sigs", "etm", "rsl", "ssuite", "sver", "sext", "random", "sentinel"}}

Configs == CASE Aspect = "ver" -> VerConfigs [] Aspect = "suite" -> SuiteConfigs [] Aspect = "group" -> GroupConfigs
             [] Aspect = "sig" -> SigConfigs [] Aspect = "ext" -> ExtConfigs [] Aspect = "mitm" -> MitmConfigs

InitState(c) == [c |-> c, st |-> "start"]
Inputs(s) == IF s.st = "start" THEN {[op |-> "connect"]} ELSE {}

(* ------------------------------------------------------------------------------------------------------ *)
Common(c) == (c.cmin..c.cmax) \cap (c.smin..c.smax)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
First(q, P(_)) == LET ks == {k \in DOMAIN q : P(q[k])} IN IF ks = {} THEN "" ELSE q[CHOOSE k \in ks : \A j \in ks : k <= j]

(* the signature scheme with which a certificate of type `kt` ("any": whichever) can sign, "" if none *)
SigFor(c, v, kt) ==
   LET base == IF c.pref THEN c.ssig ELSE c.csig
       oth == IF c.pref THEN c.csig ELSE c.ssig
   IN First(base, LAMBDA x : /\ x \in Range(oth)
                             /\ Sig[x].key \in Range(c.creds) /\ (kt = "any" \/ Sig[x].key = kt)
                             /\ (v = 13 => Sig[x].v13 /\ (Sig[x].key = "ec" => Sig[x].cv = "p256"))
                             /\ (v = 12 /\ Sig[x].key = "ec" => "p256" \in Range(c.cg)))
GroupFor(c, v) ==
   LET usable(g) == g \in Range(c.sg) /\ g \in Range(c.cg) /\ (v = 12 => g \notin Only13)
       share == c.cg[1]
   IN IF c.cmax = 13 /\ usable(share) THEN share      \* a hello with a key share: its group costs no further round trip
      ELSE First(IF c.pref THEN c.sg ELSE c.cg, usable)
SuiteFor(c, v) ==
   First(IF c.pref THEN c.ss ELSE c.cs,
         LAMBDA x : /\ x \in Range(c.ss) /\ x \in Range(c.cs) /\ Suite[x].v = v
                    /\ (v = 12 => /\ SigFor(c, v, Suite[x].auth) # ""
                                  /\ (Suite[x].kx = "ecdhe" => GroupFor(c, v) # "")))
Alpn(c) == IF c.calpn = <<>> \/ ~c.hasalpn THEN "" ELSE First(c.salpn, LAMBDA x : x \in Range(c.calpn))

(* who sends which alert when the policies do not meet *)
Problems(c) ==
   IF Common(c) = {} THEN (IF c.cmin > c.smax THEN {<<"c", 70>>, <<"s", 40>>} ELSE {<<"s", 70>>})
        \cup (IF c.sni = "host" /\ c.scb = "fatal" THEN {<<"s", 112>>} ELSE {})
   ELSE LET v == Max(Common(c)) IN
     (IF c.cmax = 12 /\ Range(c.cg) \subseteq Only13 /\ \E x \in Range(c.cs) : Suite[x].v = 12 /\ Suite[x].kx = "ecdhe" THEN {<<"c", 80>>} ELSE {})
     \cup (IF c.fb /\ v < c.smax THEN {<<"s", 86>>} ELSE {})
     \cup (IF SuiteFor(c, v) = "" THEN {<<"s", 40>>} ELSE {})
     \cup (IF v = 13 /\ (GroupFor(c, v) = "" \/ SigFor(c, v, "any") = "") THEN {<<"s", 40>>} ELSE {})
     \cup (IF v = 12 /\ c.sems = 1 /\ c.cems = -1 THEN {<<"s", 40>>} ELSE {})
     \cup (IF v = 12 /\ c.cems = 1 /\ c.sems = -1 THEN {<<"c", 40>>} ELSE {})
     \cup (IF c.calpn # <<>> /\ c.hasalpn /\ Alpn(c) = "" /\ c.alpnack THEN {<<"s", 120>>} ELSE {})
     \cup (IF c.sni = "host" /\ c.scb = "fatal" THEN {<<"s", 112>>} ELSE {})

Lim(x, v) == IF v = 13 THEN (IF x > 16385 THEN 16385 ELSE x) ELSE (IF x > 16384 THEN 16384 ELSE x)
(* the most application data one record may carry, given what the peer announced *)
MaxW(c, v, own, peer) == IF c.dg THEN 0 ELSE IF own = 0 \/ peer = 0 THEN 16384 ELSE Lim(peer, v) - (IF v = 13 THEN 1 ELSE 0)

Agreed(c) ==
   LET v == Max(Common(c))
       su == SuiteFor(c, v)
       kx == Suite[su].kx
       g == IF kx = "ecdhe" THEN GroupFor(c, v) ELSE ""
   IN [v |-> v, suite |-> su, group |-> g, hrr |-> v = 13 /\ g # c.cg[1],
       sig |-> IF kx = "rsa" THEN "" ELSE SigFor(c, v, Suite[su].auth),
       ems |-> v = 12 /\ c.cems # -1 /\ c.sems # -1,
       etm |-> v = 12 /\ c.cetm /\ c.setm /\ Suite[su].cbc,
       alpn |-> Alpn(c),
       sni |-> IF c.sni = "host" THEN "host" ELSE "",
       cw |-> MaxW(c, v, c.crl, c.srl), sw |-> MaxW(c, v, c.srl, c.crl)]

Alerts == {10, 20, 40, 47, 50, 51, 70, 80, 86, 109, 110, 120}
Tampered(c) ==
   IF c.mitm \in {"ver"} /\ 13 \in Common(c) /\ 12 \in c.cmin..c.cmax /\ 12 \in c.smin..c.smax THEN {<<"c", 47>>}  \* the downgrade marker
   ELSE {"c", "s"} \X Alerts

Outcomes(s, i) ==
   LET c == s.c
       t == [s EXCEPT !.st = "done"]
       fails(S) == {[s |-> t, out |-> <<"fail", x[1], x[2]>>] : x \in S}
   IN IF c.mitm # "none" THEN fails(Problems(c) \cup Tampered(c))
      ELSE IF Problems(c) # {} THEN fails(Problems(c))
      ELSE {[s |-> [t EXCEPT !.st = "up"], out |-> <<"ok", Agreed(c), TRUE>>]}

(* ------------------------------------------------------------------------------------------------------ *)
Inv(s) == s.st \in {"start", "done", "up"}
TransInv(s, i, o, t) ==
   LET c == s.c IN
   /\ t.st = "up" =>
        LET a == Agreed(c) IN
        \* what was agreed was offered by one side and allowed by the other
        /\ a.v \in Common(c) /\ \A w \in Common(c) : w <= a.v
        /\ a.suite \in Range(c.cs) /\ a.suite \in Range(c.ss) /\ Suite[a.suite].v = a.v
        /\ a.group # "" => a.group \in Range(c.cg) /\ a.group \in Range(c.sg)
        /\ a.sig # "" => a.sig \in Range(c.csig) /\ a.sig \in Range(c.ssig) /\ Sig[a.sig].key \in Range(c.creds)
        /\ (a.v = 12 /\ (c.cems = 1 \/ c.sems = 1)) => a.ems
        /\ (c.cems = -1 \/ c.sems = -1) => ~a.ems
        /\ (c.fb => a.v = c.smax)
        /\ c.mitm = "none"
=============================================================================
