-------------------------------- MODULE Auth --------------------------------
(* Peer authentication: whom an endpoint lets in under its policy. A configuration is a pair of policies and the identity     *)
(* each side presents; the first step connects them, later steps change the identity or the policy and authenticate again    *)
(* (post-handshake authentication in 1.3, renegotiation in 1.2).                                                              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Aspect, Depth

Range(q) == {q[k] : k \in DOMAIN q}

(* what is wrong with the identity presented: one fault each *)
Kinds == {"ok", "evil", "expired", "future", "noint", "sig", "eku", "ku", "crit", "notca", "revoked", "intexp", "self"}
SmKinds == {"ok", "evil", "expired", "sig", "revoked"}

Base == [ver |-> "tls13", kx |-> "ecdhe", sc |-> "ok", se |-> "ok", cc |-> "none", ce |-> "ok",
         cp |-> [vn |-> FALSE, cb |-> "", app |-> "", host |-> "", ku |-> TRUE, depth |-> 0, crl |-> FALSE],
         sp |-> [vn |-> FALSE, cb |-> "", app |-> "", host |-> "", ku |-> TRUE, depth |-> 0, crl |-> FALSE],
         req |-> FALSE, opt |-> FALSE, once |-> FALSE, cpha |-> FALSE, spha |-> FALSE, flat |-> FALSE]
Vers == {"tls12", "tls13", "dtls12", "dtls13"}
Cbs == {"", "pass", "all", "none"}
Apps == {"", "yes", "no"}
Pol(p, vn, cb, app) == [p EXCEPT !.vn = vn, !.cb = cb, !.app = app]

Configs ==
   CASE Aspect = "server" ->         \* the client judges the server
          {[Base EXCEPT !.ver = v, !.sc = k, !.cp = Pol(Base.cp, vn, cb, app)] : v \in Vers, k \in Kinds, vn \in BOOLEAN, cb \in Cbs, app \in Apps}
     [] Aspect = "options" ->
          {[Base EXCEPT !.ver = v, !.kx = x, !.sc = k, !.cp = [Base.cp EXCEPT !.host = h, !.ku = u, !.depth = d, !.crl = r, !.vn = vn]] :
             v \in Vers, x \in {"ecdhe", "rsa"}, k \in {"ok", "ku", "revoked", "kenc", "noint"}, h \in {"", "srv", "other", "two"}, u \in BOOLEAN, d \in {0, 1, 2, 3},
             r \in BOOLEAN, vn \in BOOLEAN}
     [] Aspect = "client" ->         \* the server judges the client
          {[Base EXCEPT !.ver = v, !.cc = k, !.req = TRUE, !.opt = o, !.sp = [Pol(Base.sp, vn, cb, app) EXCEPT !.crl = k = "revoked"]] :
             v \in Vers, k \in Kinds \cup {"none"}, o \in BOOLEAN, vn \in BOOLEAN, cb \in Cbs, app \in Apps}
     [] Aspect = "tlcp" ->
          {[Base EXCEPT !.ver = v, !.kx = "ecc", !.sc = k, !.se = e, !.cp = [Base.cp EXCEPT !.vn = vn, !.cb = cb, !.crl = TRUE]] :
             v \in {"tlcp", "dtlcp"}, k \in SmKinds, e \in SmKinds \cup {"none"}, vn \in BOOLEAN, cb \in {"", "all"}}
          \cup {[Base EXCEPT !.ver = v, !.kx = x, !.cc = k, !.ce = e, !.req = r, !.opt = o, !.sp = [Base.sp EXCEPT !.vn = vn, !.crl = TRUE]] :
             v \in {"tlcp", "dtlcp"}, x \in {"ecc", "ecdhe"}, k \in SmKinds \cup {"none"}, e \in SmKinds, r \in BOOLEAN, o \in BOOLEAN, vn \in BOOLEAN}
     [] Aspect = "later" ->
          {[Base EXCEPT !.ver = v, !.cc = k, !.req = r, !.opt = o, !.once = n, !.cpha = a, !.spha = b, !.flat = TRUE] :
             v \in {"tls12", "tls13"}, k \in {"ok", "evil", "none"}, r \in BOOLEAN, o \in BOOLEAN, n \in BOOLEAN, a \in BOOLEAN, b \in BOOLEAN}

InitState(c) == [c |-> c, st |-> "new", cc |-> c.cc, req |-> c.req, opt |-> c.opt, vn |-> c.sp.vn, asked |-> 0, peer |-> "", vr |-> "", n |-> 0]

V13(c) == c.ver \in {"tls13", "dtls13"}
NeedsEnc(c) == c.ver \in {"tlcp", "dtlcp"} /\ c.kx = "ecdhe"
Sm(c) == c.ver \in {"tlcp", "dtlcp"}

---------------------------------------------------------------------------
(* the judgement of one identity *)
Fault(c, p, role, k) ==              \* what path validation finds; "" if nothing
   IF k = "revoked" THEN IF p.crl THEN "revoked" ELSE ""
   ELSE IF k = "evil" THEN (IF Sm(c) \/ c.flat THEN "issuer" ELSE "root") ELSE IF k = "noint" THEN "issuer" ELSE IF k = "self" THEN "issuer" ELSE IF k = "expired" THEN "late"
   ELSE IF k = "intexp" THEN "late" ELSE IF k = "future" THEN "early" ELSE IF k = "sig" THEN "sig" ELSE IF k = "eku" THEN "purpose"
   ELSE IF k = "crit" THEN "critext" ELSE IF k = "notca" THEN "ca" ELSE ""
Deep(c, p) == p.depth > 0 /\ (IF Sm(c) THEN 2 ELSE 3) > p.depth
BadHost(p, role) == p.host = "other"
Building == {"root", "issuer"}       \* no path at all: nothing a callback could excuse

Verify(c, p, role, k) ==             \* "" or the reason of rejection
   LET f == IF Deep(c, p) /\ k \notin {"self", "noint"} THEN "depth" ELSE IF Fault(c, p, role, k) # "" THEN Fault(c, p, role, k) ELSE IF BadHost(p, role) THEN "host" ELSE "" IN
   IF p.app = "yes" THEN "" ELSE IF p.app = "no" THEN "app"
   ELSE IF f \in Building \cup {"depth"} THEN f
   ELSE IF p.cb = "none" THEN (IF f = "" THEN "cb" ELSE f)
   ELSE IF p.cb = "all" THEN "" ELSE f

(* key usage is no matter of the path: neither callback nor "verify none" excuses it *)
WrongUse(c, p, role, k) ==
   ~Sm(c) /\ p.ku /\ IF role = "srv" /\ c.kx = "rsa" /\ ~V13(c) THEN k = "ku" ELSE k \in {"ku", "kenc"}

---------------------------------------------------------------------------
Side(up, done, alert, vr, peer) == [up |-> up, done |-> done, alert |-> alert, vr |-> vr, peer |-> peer]
ClientView(c) ==
   LET v == Verify(c, c.cp, "srv", c.sc)
       e == IF Sm(c) /\ v = "" THEN Verify(c, c.cp, "srv", c.se) ELSE "" IN
   IF WrongUse(c, c.cp, "srv", c.sc) THEN [ok |-> FALSE, vr |-> "", hard |-> TRUE]
   ELSE IF v # "" THEN [ok |-> c.cp.vn, vr |-> v, hard |-> FALSE]
   ELSE [ok |-> e = "" \/ c.cp.vn, vr |-> e, hard |-> FALSE]
ServerView(s) ==
   LET p == [s.c.sp EXCEPT !.vn = s.vn]
       a == Verify(s.c, p, "cli", s.cc)
       v == IF a = "" /\ NeedsEnc(s.c) THEN Verify(s.c, p, "cli", s.c.ce) ELSE a IN      \* the exchange uses the client's encryption key
   IF s.cc = "none" THEN [ok |-> s.opt /\ s.req, vr |-> "", why |-> "need"]
   ELSE IF WrongUse(s.c, p, "cli", s.cc) THEN [ok |-> FALSE, vr |-> "", why |-> "cert"]
   ELSE [ok |-> v = "" \/ s.vn, vr |-> v, why |-> "cert"]
Asks(s) == NeedsEnc(s.c) \/ (s.req /\ ~(s.c.once /\ s.asked > 0) /\ ~(V13(s.c) /\ s.st = "new" /\ s.c.cpha /\ s.c.spha))
Named(k) == IF k = "none" THEN "" ELSE "cli"

Connect(s) ==
   LET c == s.c
       cv == ClientView(c)
       sv == ServerView(s) IN
   IF Sm(c) /\ c.se = "none" /\ s.st = "new" THEN         \* a TLCP server without an encryption identity cannot serve
      {[s |-> [s EXCEPT !.st = "down", !.n = @ + 1], out |-> <<"unable">>]}
   ELSE IF ~cv.ok THEN
      {[s |-> [s EXCEPT !.st = "down", !.n = @ + 1],
        out |-> <<"hs", Side(FALSE, FALSE, "cert", cv.vr, ""), Side(FALSE, FALSE, "", "", "")>>]}
   ELSE IF ~Asks(s) THEN
      {[s |-> [s EXCEPT !.st = "up", !.peer = "", !.n = @ + 1],
        out |-> <<"hs", Side(TRUE, TRUE, "", cv.vr, "srv"), Side(TRUE, TRUE, "", s.vr, "")>>]}
   ELSE IF sv.ok /\ NeedsEnc(c) /\ s.cc = "none" THEN        \* nothing to exchange keys with
      {[s |-> [s EXCEPT !.st = "down", !.n = @ + 1], out |-> <<"hs", Side(FALSE, FALSE, a, cv.vr, ""), Side(FALSE, FALSE, b, "", "")>>] : a \in {"", "80"}, b \in {"", "need", "80"}}
   ELSE IF sv.ok THEN
      {[s |-> [s EXCEPT !.st = "up", !.asked = @ + 1, !.peer = Named(s.cc), !.vr = IF s.cc = "none" THEN @ ELSE sv.vr, !.n = @ + 1],
        out |-> <<"hs", Side(TRUE, TRUE, "", cv.vr, "srv"), Side(TRUE, TRUE, "", IF s.cc = "none" THEN s.vr ELSE sv.vr, Named(s.cc))>>]}
   ELSE IF NeedsEnc(c) /\ s.cc = "none" THEN
      {[s |-> [s EXCEPT !.st = "down", !.n = @ + 1], out |-> <<"hs", Side(FALSE, FALSE, a, cv.vr, ""), Side(FALSE, FALSE, "need", "", "")>>] : a \in {"", "80"}}
   ELSE {[s |-> [s EXCEPT !.st = "down", !.n = @ + 1],
        out |-> <<"hs", Side(FALSE, V13(c), "", cv.vr, IF V13(c) THEN "srv" ELSE ""), Side(FALSE, FALSE, sv.why, sv.vr, "")>>]}

PhaOk(s) == V13(s.c) /\ s.c.cpha /\ s.c.req        \* the server's own setting only says whether the first handshake asks too
Pha(s) ==
   LET sv == ServerView(s) IN
   IF ~PhaOk(s) THEN {[s |-> [s EXCEPT !.n = @ + 1], out |-> <<"refused">>]}
   ELSE IF sv.ok /\ (s.cc # "none" \/ s.req) THEN {[s |-> [s EXCEPT !.asked = @ + 1, !.vr = IF s.cc = "none" THEN @ ELSE sv.vr, !.peer = IF s.cc = "none" THEN @ ELSE "cli", !.n = @ + 1], out |-> <<"pha", TRUE, "", IF s.cc = "none" THEN s.vr ELSE sv.vr, Named(s.cc)>>]}
   ELSE {[s |-> [s EXCEPT !.st = "down", !.n = @ + 1], out |-> <<"pha", FALSE, sv.why, sv.vr, "">>]}

---------------------------------------------------------------------------
Inputs(s) ==
   IF s.n >= Depth \/ s.st = "down" THEN {}
   ELSE IF s.st = "new" THEN {[op |-> "hs"]}
   ELSE {[op |-> "data"]} \cup
        (IF Aspect # "later" THEN {} ELSE
         {[op |-> "ident", k |-> k] : k \in {"ok", "evil", "expired"}} \cup {[op |-> "policy", req |-> r, opt |-> o, vn |-> v] : r \in BOOLEAN, o \in BOOLEAN, v \in BOOLEAN}
         \cup (IF V13(s.c) THEN {[op |-> "pha"]} ELSE {[op |-> "reneg", by |-> b] : b \in {"cli", "srv"}}))

Outcomes(s, i) ==
   CASE i.op = "hs" -> Connect(s)
     [] i.op = "data" -> {[s |-> [s EXCEPT !.n = @ + 1], out |-> <<"data", TRUE>>]}
     [] i.op = "ident" -> {[s |-> [s EXCEPT !.cc = i.k, !.n = @ + 1], out |-> <<"set">>]}
     [] i.op = "policy" -> {[s |-> [s EXCEPT !.req = i.req, !.opt = i.opt, !.vn = i.vn, !.n = @ + 1], out |-> <<"set">>]}
     [] i.op = "pha" -> Pha(s)
     [] i.op = "reneg" -> Connect(s)

---------------------------------------------------------------------------
(* what the above amounts to, whatever the policies *)
Lax(p) == p.vn \/ p.cb = "all" \/ p.app = "yes"
Sound(k, p) == k = "ok" \/ (k = "revoked" /\ ~p.crl) \/ (k \in {"ku", "kenc"}) 
Inv(s) ==
   /\ s.st = "up" => (Lax(s.c.cp) \/ (Sound(s.c.sc, s.c.cp) /\ (Sm(s.c) => Sound(s.c.se, s.c.cp))))
   /\ s.st = "up" /\ Aspect # "later" /\ s.c.req /\ ~s.c.opt /\ ~Lax(s.c.sp) => Sound(s.c.cc, s.c.sp)
TransInv(s, i, o, t) == t.st = "up" /\ i.op = "pha" /\ o[1] = "pha" /\ ~Lax(s.c.sp) /\ ~s.vn => (Sound(s.cc, s.c.sp) \/ (s.cc = "none" /\ s.opt))
=============================================================================
