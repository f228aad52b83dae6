------------------------------- MODULE Resume -------------------------------
(* Session resumption. A client holds sessions in two slots and offers one of them (or none) when it connects to one of two   *)
(* servers; the servers keep their own cache and ticket key. In between time passes, keys are rotated, contexts changed,     *)
(* entries removed, sessions stored and loaded, tickets tampered with.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Aspect, Depth

Range(q) == {q[k] : k \in DOMAIN q}
Servers == {1, 2}
Slots == {1, 2}
None == [sid |-> 0]

Base == [ver |-> "tls12", tick |-> FALSE, mode |-> "server", size |-> 0, life |-> 100, ems |-> "prefer", snicb |-> FALSE]
Conn == [op |-> "conn", sl |-> 0, put |-> 1, ver |-> "tls12", suites |-> <<"A", "B">>, ems |-> "prefer", sni |-> "", tick |-> FALSE, who |-> "", srv |-> 1,
         keep |-> "ref", end |-> "clean", clife |-> 1000]
Sm(v) == v \in {"tlcp", "dtlcp"}
Dg(v) == v \in {"dtls12", "dtls13", "dtlcp"}

Configs ==
   CASE Aspect = "param" ->
          {[Base EXCEPT !.ver = v, !.tick = t, !.ems = e, !.snicb = n] : v \in {"tls12", "dtls12"}, t \in BOOLEAN, e \in {"prefer", "force", "forbid"}, n \in BOOLEAN}
          \cup {[Base EXCEPT !.ver = v, !.tick = t, !.snicb = n] : v \in {"tls13", "dtls13", "tls"}, t \in BOOLEAN, n \in BOOLEAN}
          \cup {[Base EXCEPT !.ver = v, !.tick = t] : v \in {"tlcp", "dtlcp"}, t \in BOOLEAN}
     [] Aspect = "life" -> {[Base EXCEPT !.ver = v, !.tick = t] : v \in {"tls12", "tls13", "tlcp", "dtls12", "dtls13"}, t \in BOOLEAN}
     [] Aspect = "ticket" -> {[Base EXCEPT !.ver = v, !.tick = TRUE] : v \in {"tls12", "tls13", "tlcp", "dtls12", "dtls13", "dtlcp"}}
     [] Aspect = "cache" -> {[Base EXCEPT !.ver = v, !.size = z, !.mode = m] : v \in {"tls12", "tlcp", "dtls12"}, z \in {0, 1, 2}, m \in {"server", "both", "no", "client", "noclean"}}

InitState(c) == [c |-> c, now |-> 0, srv |-> [k \in Servers |-> [key |-> k, id |-> 0, life |-> c.life]], slot |-> [k \in Slots |-> None], cache |-> {}, n |-> 0]

---------------------------------------------------------------------------
Full(s) == s.c.ver
V(s) == IF s.c.ver = "tls" THEN {"tls", "tls12", "tls13"} ELSE IF s.c.ver = "tls12" THEN {"tls12", "tls"} ELSE IF s.c.ver = "dtls12" THEN {"dtls12", "dtls"} ELSE {s.c.ver}
Conns(s, f(_)) == {f(i) : i \in {[Conn EXCEPT !.ver = v] : v \in V(s)}}
Held(s) == {k \in Slots : s.slot[k].sid # 0}
Who(v) == IF Sm(v) THEN "sm" ELSE "ec"
Init1(s) == {[Conn EXCEPT !.ver = v, !.tick = s.c.tick, !.who = w, !.sni = n, !.ems = e, !.suites = q] :
               v \in V(s), w \in {Who(s.c.ver)}, n \in (IF Sm(s.c.ver) THEN {""} ELSE {"", "a"}), e \in (IF s.c.ver \in {"tls12", "dtls12", "tls"} THEN {"prefer", "forbid"} ELSE {"prefer"}),
               q \in {<<"A", "B">>, <<"B">>}}
Again(s) == {[Conn EXCEPT !.sl = 1, !.put = 2, !.ver = v, !.tick = t, !.who = w, !.sni = n, !.ems = e, !.suites = q] :
               v \in V(s), t \in {s.c.tick, TRUE}, w \in {IF Sm(s.c.ver) THEN "" ELSE "rsa"}, n \in (IF Sm(s.c.ver) THEN {""} ELSE {"", "a", "A", "b"}),
               e \in (IF s.c.ver \in {"tls12", "dtls12", "tls"} THEN {"prefer", "force", "forbid"} ELSE {"prefer"}),
               q \in (IF Sm(s.c.ver) THEN {<<"A", "B">>, <<"B">>} ELSE {<<"A", "B">>, <<"B">>, <<"B", "A">>, <<"C", "A">>, <<"C">>})}
Ends(s) == {"clean", "drop"} \cup (IF Dg(s.c.ver) THEN {} ELSE {"bad"})
Plain(s) == [Conn EXCEPT !.ver = s.c.ver, !.tick = s.c.tick, !.who = Who(s.c.ver)]

Inputs(s) ==
   IF s.n >= Depth THEN {}
   ELSE CASE Aspect = "param" -> IF s.n = 0 THEN Init1(s) ELSE Again(s)
     [] Aspect = "life" ->
          {[Plain(s) EXCEPT !.clife = x] : x \in {1000, 50}}
          \cup {[Plain(s) EXCEPT !.sl = k, !.put = k, !.who = "", !.keep = "copy"] : k \in Held(s)}
          \cup {[op |-> "tick", n |-> x] : x \in {49, 50, 51, 99, 100, 101}}
          \cup {[op |-> "stretch", sl |-> k] : k \in Held(s)}
          \cup {[op |-> "life", srv |-> 1, n |-> x] : x \in {60, 200}}
          \cup {[op |-> "codec", sl |-> k] : k \in Held(s)}
          \cup {[op |-> "clean", srv |-> 1]}
     [] Aspect = "ticket" ->
          {[Plain(s) EXCEPT !.srv = v] : v \in Servers}
          \cup {[Plain(s) EXCEPT !.sl = k, !.put = p, !.srv = v, !.who = "", !.tick = t, !.end = e, !.keep = w] : k \in Held(s), p \in {0, 1}, v \in Servers, t \in BOOLEAN,
                 e \in Ends(s) \ {"drop"}, w \in {"ref", "copy"}}
          \cup {[op |-> "key", srv |-> v, n |-> x] : v \in Servers, x \in {1, 2, 3}}
          \cup {[op |-> "idctx", srv |-> v, n |-> x] : v \in Servers, x \in {1, 2, 3}}
          \cup {[op |-> "tamper", sl |-> k, w |-> x] : k \in Held(s), x \in {"name", "iv", "len", "first", "mid", "endct", "mac", "last", "short", "long", "nomac", "cut"}}
     [] Aspect = "cache" ->
          {[Plain(s) EXCEPT !.put = p, !.end = e, !.keep = w, !.srv = v] : p \in {1, 2}, e \in Ends(s), w \in {"ref", "copy"}, v \in Servers}
          \cup {[Plain(s) EXCEPT !.sl = k, !.put = k, !.who = "", !.srv = v, !.end = e, !.keep = "copy"] : k \in Held(s), v \in Servers, e \in Ends(s)}
          \cup {[op |-> "remove", sl |-> k, srv |-> v] : k \in Held(s), v \in Servers}
          \cup {[op |-> "purge", srv |-> v] : v \in Servers} \cup {[op |-> "clean", srv |-> 1]}
          \cup {[op |-> "tick", n |-> 99], [op |-> "tick", n |-> 100]}
          \cup {[op |-> "idctx", srv |-> 1, n |-> x] : x \in {1, 2, 3}}

---------------------------------------------------------------------------
(* one connection *)
Hash(q) == IF q = "B" THEN 384 ELSE 256
Nego(s, i) == IF s.c.ver = "tls" THEN (IF i.ver = "tls12" THEN "12" ELSE "13")
              ELSE IF s.c.ver \in {"tls13", "dtls13"} THEN "13" ELSE IF Sm(s.c.ver) THEN "tlcp" ELSE "12"
EmsC(s, i) == IF Sm(s.c.ver) THEN "forbid" ELSE i.ems
EmsS(s) == IF Sm(s.c.ver) THEN "forbid" ELSE s.c.ems
EmsNow(s, i) == Nego(s, i) = "12" /\ EmsC(s, i) # "forbid" /\ EmsS(s) # "forbid"
EmsFail(s, i) == Nego(s, i) = "12" /\ ((EmsC(s, i) = "force" /\ EmsS(s) = "forbid") \/ (EmsC(s, i) = "forbid" /\ EmsS(s) = "force"))

Lower(x) == IF x = "A" THEN "a" ELSE x
Offered(s, i) ==                     \* the client presents the session
   LET h == s.slot[i.sl] IN
   i.sl # 0 /\ h.sid # 0 /\ h.con /\ s.now < h.ct + h.clife
   /\ (Nego(s, i) # "13" => ~((~h.ems /\ EmsC(s, i) = "force") \/ (h.ems /\ EmsC(s, i) = "forbid")))
   /\ (Nego(s, i) = "13" => h.tk # 0 /\ h.ver = "13" /\ \E q \in Range(i.suites) : Hash(q) = Hash(h.suite))
Sent(s, i) ==                        \* the name the client sends: a client that stops at 1.2 repeats the one acknowledged in the session
   IF i.ver \in {"tls12", "dtls12"} /\ Offered(s, i) THEN s.slot[i.sl].csni ELSE Lower(i.sni)
ByTicket(s, i) == s.slot[i.sl].tk # 0 /\ (Nego(s, i) = "13" \/ i.tick)
Cached(s, h, v) == {e \in s.cache : e.sid = h.sid /\ e.srv = v}
Found(s, i) ==                       \* the server recovers it
   LET h == s.slot[i.sl] IN
   Offered(s, i)
   /\ IF ByTicket(s, i) THEN (Nego(s, i) = "13" \/ s.c.tick) /\ h.tk = s.srv[i.srv].key
      ELSE \E e \in Cached(s, h, i.srv) : e.on /\ s.now < e.t + e.life
Fresh(s, i) == LET h == s.slot[i.sl] IN s.now < h.st + h.slife
SameId(s, i) == s.slot[i.sl].id = s.srv[i.srv].id
SameSni(s, i) == Nego(s, i) # "12" \/ ~s.c.snicb \/ s.slot[i.sl].sni = Sent(s, i)
SameVer(s, i) == s.slot[i.sl].ver = Nego(s, i)
SameEms(s, i) ==                     \* RFC 7627, 5.3: both handshakes with the extension, or both without
   \/ Nego(s, i) # "12"
   \/ s.slot[i.sl].ems /\ EmsC(s, i) # "forbid" /\ EmsS(s) # "forbid"
   \/ ~s.slot[i.sl].ems /\ EmsC(s, i) = "forbid" /\ EmsS(s) # "force"
Pick(s, i) == Head(i.suites)
SameSuite(s, i) == IF Nego(s, i) = "13" THEN Hash(s.slot[i.sl].suite) = Hash(Pick(s, i)) ELSE s.slot[i.sl].suite \in Range(i.suites)
Resumable(s, i) == Found(s, i) /\ Fresh(s, i) /\ SameId(s, i) /\ SameSni(s, i) /\ SameVer(s, i) /\ SameEms(s, i) /\ SameSuite(s, i)
MayFail(s, i) == Found(s, i) /\ (~SameVer(s, i) \/ ~SameSuite(s, i) \/ (Nego(s, i) = "13" /\ ~SameId(s, i)))

Ticketed(s, i) == Nego(s, i) = "13" \/ (s.c.tick /\ i.tick)
Tickets(s, i) ==                     \* whether a full handshake issues a ticket; left open where the client presented one that was not honoured
   {Ticketed(s, i)} \cup (IF Ticketed(s, i) /\ Nego(s, i) # "13" /\ Offered(s, i) /\ ByTicket(s, i) THEN {FALSE} ELSE {})
HasId(s) == s.c.mode \in {"server", "both", "noclean"}
New(s, i, tick) ==                   \* the session of a full handshake
   [sid |-> s.n + 1, ver |-> Nego(s, i), suite |-> Pick(s, i), ems |-> EmsNow(s, i), id |-> s.srv[i.srv].id,
    sni |-> IF s.c.snicb /\ Nego(s, i) = "12" THEN Sent(s, i) ELSE "",
    csni |-> IF s.c.snicb /\ Nego(s, i) = "12" /\ s.c.ver # "tls" THEN Sent(s, i) ELSE "",
    ct |-> s.now, st |-> s.now, clife |-> IF tick THEN s.srv[i.srv].life ELSE i.clife,
    slife |-> s.srv[i.srv].life, tk |-> IF tick THEN s.srv[i.srv].key ELSE 0, con |-> TRUE, who |-> i.who, ok |-> tick \/ HasId(s)]
Kept(s, i) ==                        \* the session of a resumed one
   LET h == s.slot[i.sl] IN
   IF Nego(s, i) = "13" THEN [h EXCEPT !.sid = s.n + 1, !.ct = s.now, !.st = s.now, !.clife = s.srv[i.srv].life, !.slife = s.srv[i.srv].life, !.tk = s.srv[i.srv].key]
   ELSE IF Ticketed(s, i) /\ ~ByTicket(s, i) THEN [h EXCEPT !.tk = s.srv[i.srv].key, !.ct = s.now, !.clife = s.srv[i.srv].life]     \* a ticket for a session known by its id
   ELSE h
Shown(h) == [ver |-> h.ver, suite |-> h.suite, ems |-> h.ems, life |-> h.clife, tk |-> h.tk # 0, ok |-> h.ok /\ h.con]

Off(q, h, v) == {IF e.sid = h.sid /\ e.srv = v THEN [e EXCEPT !.on = FALSE] ELSE e : e \in q}
Fatal(s, i) == i.end = "bad"
Cleaned(s, srv) == IF s.c.mode = "noclean" THEN s.cache ELSE {e \in s.cache : e.srv # srv \/ (e.on /\ s.now < e.t + e.life)}
Stored(s, i, h) ==
   LET k == Cleaned(s, i.srv) IN
   IF h.tk # 0 \/ ~HasId(s) \/ (s.c.size > 0 /\ Cardinality({e \in k : e.srv = i.srv}) >= s.c.size) THEN k
   ELSE k \cup {[sid |-> h.sid, srv |-> i.srv, t |-> s.now, life |-> s.srv[i.srv].life, on |-> i.end # "bad"]}
Saved(s, i, h) == IF i.put = 0 THEN s.slot ELSE [s.slot EXCEPT ![i.put] = IF Fatal(s, i) /\ i.keep = "ref" THEN [h EXCEPT !.con = FALSE] ELSE h]
Kill(sl, k) == IF k = 0 \/ sl[k].sid = 0 THEN sl ELSE [sl EXCEPT ![k] = [@ EXCEPT !.con = FALSE]]

Complete(s, i, resumed, tick) ==
   LET h == IF resumed THEN Kept(s, i) ELSE New(s, i, tick)
       k == IF resumed THEN LET q == Cleaned(s, i.srv) IN IF i.end # "bad" THEN q ELSE Off(q, s.slot[i.sl], i.srv)
            ELSE Stored(s, i, h)
       t == [s EXCEPT !.n = @ + 1, !.slot = Saved(s, i, h), !.cache = k]
       o == <<"conn", IF resumed THEN "resumed" ELSE "full", Nego(s, i), IF resumed /\ Nego(s, i) # "13" THEN h.suite ELSE Pick(s, i), "srv", h.who, TRUE,
              IF resumed /\ Nego(s, i) # "13" THEN "old" ELSE "new", Shown(h)>>
   IN {[s |-> t, out |-> o]}
      \cup (IF Fatal(s, i) /\ resumed THEN {[s |-> [t EXCEPT !.slot = Kill(@, i.sl)], out |-> o]} ELSE {})
Failed(s, i, a) ==
   {[s |-> [s EXCEPT !.n = @ + 1, !.cache = k, !.slot = q], out |-> <<"failed", x>>] : x \in a,
      k \in {s.cache, IF i.sl = 0 THEN s.cache ELSE Off(s.cache, s.slot[i.sl], i.srv)}, q \in {s.slot, Kill(s.slot, i.sl)}}

Outcomes(s, i) ==
   LET t == [s EXCEPT !.n = @ + 1] IN
   CASE i.op = "conn" ->
          IF Resumable(s, i) THEN Complete(s, i, TRUE, TRUE)
          ELSE (IF MayFail(s, i) THEN Failed(s, i, {"70", "47", "40"}) ELSE {})
               \cup (IF EmsFail(s, i) THEN Failed(s, i, {"40"}) ELSE UNION {Complete(s, i, FALSE, x) : x \in Tickets(s, i)})
     [] i.op = "tick" -> {[s |-> [t EXCEPT !.now = @ + i.n], out |-> <<"ok">>]}
     [] i.op = "key" -> {[s |-> [t EXCEPT !.srv[i.srv].key = i.n], out |-> <<"key", TRUE>>]}
     [] i.op = "idctx" -> {[s |-> [t EXCEPT !.srv[i.srv].id = i.n], out |-> <<"ok">>]}
     [] i.op = "life" -> {[s |-> [t EXCEPT !.srv[i.srv].life = i.n], out |-> <<"ok">>]}
     [] i.op = "purge" -> {[s |-> [t EXCEPT !.cache = {e \in @ : e.srv # i.srv}], out |-> <<"ok">>]}
     [] i.op = "clean" -> {[s |-> [t EXCEPT !.cache = {e \in @ : e.srv # i.srv \/ (e.on /\ s.now < e.t + e.life)}], out |-> <<"ok">>]}
     [] i.op = "remove" ->
          LET k == Cached(s, s.slot[i.sl], i.srv) IN {[s |-> [t EXCEPT !.cache = @ \ k], out |-> <<IF k # {} THEN "removed" ELSE "absent">>]}
     [] i.op = "stretch" -> {[s |-> [t EXCEPT !.slot[i.sl].clife = 1000000], out |-> <<"ok">>]}
     [] i.op = "codec" ->
          LET h == [s.slot[i.sl] EXCEPT !.tk = 0, !.con = TRUE, !.ok = s.slot[i.sl].ok /\ s.slot[i.sl].ver # "13"] IN
          {[s |-> [t EXCEPT !.slot[i.sl] = h], out |-> <<"codec", TRUE, Shown(h)>>]}
     [] i.op = "tamper" -> {[s |-> [t EXCEPT !.slot[i.sl].tk = 9, !.slot[i.sl].con = TRUE], out |-> <<"ok">>]}

---------------------------------------------------------------------------
Inv(s) == /\ \A e \in s.cache : e.sid <= s.n /\ e.t <= s.now
          /\ \A k \in Slots : s.slot[k].sid # 0 => s.slot[k].ct <= s.now
          /\ (s.c.size > 0 => \A v \in Servers : Cardinality({e \in s.cache : e.srv = v}) <= s.c.size)
(* a resumed connection: the identity, version and (below 1.3) suite and master secret are those of the session, which the server still honours *)
TransInv(s, i, o, t) ==
   (i.op = "conn" /\ o[1] = "conn" /\ o[2] = "resumed") =>
     LET h == s.slot[i.sl] IN
     /\ i.sl # 0 /\ h.sid # 0 /\ o[6] = h.who /\ o[3] = h.ver /\ o[9].ems = h.ems
     /\ (o[3] # "13" => o[4] = h.suite /\ o[8] = "old") /\ (o[3] = "13" => Hash(o[4]) = Hash(h.suite) /\ o[8] = "new")
     /\ h.id = s.srv[i.srv].id /\ s.now < h.st + h.slife /\ (h.tk = 0 => Cached(s, h, i.srv) # {}) /\ h.tk # 9
=============================================================================
