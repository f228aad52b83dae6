--------------------------------- MODULE Hs ---------------------------------
(* The handshake of one endpoint (the library) against an arbitrary peer: which message is accepted when, what is sent in    *)
(* reply, and when the connection counts as established. Every message may come at any time, well formed (v = "ok") or not.  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Configs,     \* [proto, role, kx, auth, cert, ticket, hrr, res]
          Others       \* messages tried out of order

(* proto: "12", "13", "tlcp"; role of the library: "srv", "cli"; auth (server): client certificates "none", "opt", "req";     *)
(* cert (client): a certificate is configured; hrr: the first ClientHello has no usable share; res: a session is resumed     *)
InitState(c) == [c |-> c, ph |-> IF c.role = "cli" THEN "start" ELSE "ch", cr |-> FALSE, cc |-> FALSE, bk |-> FALSE]
R(s, ph, names, st) == {[s |-> [s EXCEPT !.ph = ph], out |-> <<names, st, <<>>>>]}
Wait(s, ph) == R(s, ph, <<>>, "wait")
Dead(s, ds) == {[s |-> [s EXCEPT !.ph = "dead"], out |-> <<<<>>, "dead", <<2, d>>>>] : d \in ds}

If(b, q) == IF b THEN q ELSE <<>>
V13(s) == s.c.proto = "13"

---------------------------------------------------------------------------
(* what the library sends *)
SrvFlight12(c) == <<"SH", "CERT">> \o If(c.kx # "rsa", <<"SKE">>) \o If(c.auth # "none", <<"CR">>) \o <<"SHD">>
SrvFlight13(c) == <<"EE">> \o If(c.auth # "none", <<"CR">>) \o <<"CERT", "CV", "FIN">>

(* deformations of each message, with the alerts that answer them; "ok" means accepted *)
Form == {"short", "long", "empty", "huge"}
Var(s, m) ==
   LET c == s.c IN
   CASE m = "CH" /\ c.proto = "12" -> {"oldver", "hiver", "nosuite", "nocomp", "emptycomp", "nosuites", "dupext", "sid33", "reneg", "badgroups", "nosig", "emptysig", "emsbody",
                                       "fallback", "unkext", "extlen", "oddsuites"}
     [] m = "CH" /\ c.proto = "tlcp" -> {"oldver", "nosuite", "nocomp", "emptycomp", "nosuites", "sid33"}
     [] m = "CH" /\ c.proto = "13" -> {"badshare", "shortshare", "emptyshare", "shareunoffered", "sharetwice", "nover", "nosuite", "comp1", "legacy", "nosig", "nogroup", "sid33",
                                       "dupext", "nokeyshareext", "nogroupsext", "nosigext", "unkext", "emptysig", "pskfirst", "nomodes"} \cup (IF s.ph = "ch2" THEN {"newsuite", "samegroup"} ELSE {})
     [] m = "SH" /\ c.proto \in {"12", "tlcp"} -> {"oldver", "hiver", "suite", "suiteunoffered", "comp", "sid33", "tls13suite"} \cup (IF c.proto = "12" THEN {"unsolicited", "unsolalpn", "dupext", "reneg", "extlen"} ELSE {})
     [] m = "SH" -> {"badshare", "shortshare", "groupunoffered", "suite", "suite12", "comp", "sid", "ver", "selver", "nover", "noshare", "unsolicited", "wrongext", "pskunoffered", "dupext", "cookie", "joined"} \cup (IF s.ph = "sh2" THEN {"newsuite", "firstgroup"} ELSE {})
     [] m = "HRR" -> {"groupoffered", "groupunoffered", "suite", "nochange", "unsolicited", "nover", "sid", "dupext"}
     [] m = "EE" -> {"keyshare", "unsolicited", "sigalgs", "groups", "alpn", "dupext", "early"}
     [] m = "CERT" /\ c.proto = "12" -> {"none", "evil", "garbage", "emptyentry", "listlen"}
     [] m = "CERT" /\ c.proto = "tlcp" -> {"none", "evil", "garbage", "one", "swapped"}
     [] m = "CERT" -> {"none", "evil", "garbage", "emptyentry", "ctx", "ext", "listlen"}
     [] m = "SKE" /\ c.kx = "ecc" -> {"badsig", "emptysig", "otherdata", "oldrandom"}
     [] m = "SKE" -> {"group", "groupunoffered", "badpoint", "shortpoint", "emptypoint", "ctype", "oldrandom", "swaprandom", "otherdata", "evilkey", "badsig", "emptysig", "scheme", "schememismatch", "sha1"}
     [] m = "CR" /\ c.proto = "12" -> {"emptysig", "notypes"}
     [] m = "CR" /\ c.proto = "13" -> {"nosigext", "emptysig", "dupext"}
     [] m = "CKE" -> IF c.kx = "ecdhe" THEN {"badpoint", "shortpoint", "emptypoint"} ELSE {"badver", "shortpms", "garbage"}
     [] m = "CV" /\ c.proto # "tlcp" -> {"badsig", "emptysig", "otherdata", "evilkey", "scheme", "schememismatch", "sha1"} \cup (IF c.proto = "13" THEN {"context", "pkcs1"} ELSE {})
     [] m = "CV" -> {"badsig", "emptysig", "otherdata"}
     [] m = "FIN" -> {"bad", "badlast", "badfirst", "zero", "role", "otherdata", "plain"}
     [] m = "CCS" -> {"body2", "len2", "empty"}
     [] m = "NST" /\ c.proto = "13" -> {"life", "dupext", "emptyticket"}
     [] m = "KU" -> {"bad"}
     [] OTHER -> {}

Harmless(s, m) ==      \* variants a conforming endpoint accepts
   CASE m = "CH" -> {"unkext", "hiver", "fallback"} \cup (IF s.c.hrr /\ s.ph = "ch" THEN {"badshare", "shortshare"} ELSE {})
     [] m = "EE" -> {"groups"}
     [] m = "CERT" /\ s.c.role = "srv" -> {"one"}
     [] OTHER -> {}

Alerts(s, m, v) ==
   LET c == s.c IN
   CASE v \in {"short", "long", "empty", "listlen", "extlen", "oddsuites"} -> {50, 47, 51}
     [] v = "huge" -> {50, 47, 22, 10}
     [] m = "CH" /\ v = "oldver" -> {70, 40}
     [] m = "CH" /\ v = "nosuite" -> IF s.ph = "ch2" THEN {40, 47} ELSE {40}
     [] m = "CH" /\ v \in {"nocomp", "comp1", "legacy"} -> {47, 70, 50}
     [] m = "CH" /\ v \in {"emptycomp", "nosuites", "sid33"} -> {50, 47}
     [] m = "CH" /\ v = "dupext" -> {47, 50}
     [] m = "CH" /\ v = "reneg" -> {40}
     [] m = "CH" /\ v = "fallback" -> {86}
     [] m = "CH" /\ v = "nover" -> {70, 40}
     [] m = "CH" /\ v \in {"nokeyshareext", "nogroupsext", "nosigext", "nomodes"} -> {109}
     [] m = "CH" /\ v = "pskfirst" -> {47}
     [] m = "CH" -> {47, 50, 40, 43}
     [] m = "SH" /\ v \in {"oldver", "hiver"} -> {70}
     [] m \in {"SH", "HRR"} /\ v = "unsolicited" -> {110, 47}
     [] m = "SH" /\ v = "unsolalpn" -> {110}
     [] m = "SH" /\ v = "reneg" -> {40}
     [] m = "SH" /\ v = "joined" -> {10}
     [] m = "SH" /\ v \in {"selver", "nover", "ver"} -> {47, 70, 109}
     [] m = "HRR" /\ v = "nover" -> {47, 70, 109}
     [] m \in {"SH", "HRR"} -> {47, 50, 40, 110, 109}
     [] m = "EE" -> {47, 110, 50}
     [] m = "CERT" /\ v = "none" -> {50, 42, 116, 40}
     [] m = "CERT" -> {42, 43, 46, 48, 50, 47, 110}
     [] m = "SKE" /\ v \in {"badsig", "oldrandom", "swaprandom", "otherdata"} -> {51}
     [] m = "SKE" -> {47, 50, 51, 40}
     [] m = "CV" /\ v \in {"badsig", "otherdata", "context"} -> {51}
     [] m = "CV" -> {47, 50, 51, 40}
     [] m = "CR" -> {50, 47, 109, 40}
     [] m = "CKE" -> {47, 80, 50, 51, 40, 20}
     [] m = "FIN" /\ v = "plain" -> {20, 10, 51, 50}
     [] m = "FIN" -> {51}
     [] m = "CCS" -> {10, 50, 47}
     [] m = "NST" -> {47, 50}
     [] m = "KU" -> {47}
     [] OTHER -> {10}

(* the right message: what happens *)
Good(s, m, v) ==
   LET c == s.c  ph == s.ph IN
   IF c.role = "srv" /\ ~V13(s) THEN
     CASE ph = "ch" /\ m = "CH" -> R(s, IF c.auth = "none" THEN "cke" ELSE "cert", SrvFlight12(c), "wait")
       [] ph = "cert" /\ m = "CERT" -> IF v = "none" THEN (IF c.auth = "req" THEN Dead(s, {40, 42}) ELSE Wait(s, "cke"))
                                       ELSE {[s |-> [s EXCEPT !.ph = "cke", !.cc = TRUE], out |-> <<<<>>, "wait", <<>>>>]}
       [] ph = "cke" /\ m = "CKE" -> Wait(s, IF s.cc THEN "cv" ELSE "ccs")
       [] ph = "cv" /\ m = "CV" -> Wait(s, "ccs")
       [] ph = "ccs" /\ m = "CCS" -> Wait(s, "fin")
       [] ph = "fin" /\ m = "FIN" -> R(s, "up", If(c.ticket, <<"NST">>) \o <<"CCS", "FIN">>, "up")
       [] OTHER -> {}
   ELSE IF c.role = "srv" THEN
     CASE ph = "ch" /\ m = "CH" -> IF c.hrr THEN R(s, "ch2", <<"HRR", "CCS">>, "wait")
                                   ELSE R(s, IF c.auth = "none" THEN "fin" ELSE "cert", <<"SH", "CCS">> \o SrvFlight13(c), "wait")
       [] ph = "ch2" /\ m = "CH" -> R(s, IF c.auth = "none" THEN "fin" ELSE "cert", <<"SH">> \o SrvFlight13(c), "wait")
       [] ph = "cert" /\ m = "CERT" -> IF v = "none" THEN (IF c.auth = "req" THEN Dead(s, {116}) ELSE Wait(s, "fin")) ELSE Wait(s, "cv")
       [] ph = "cv" /\ m = "CV" -> Wait(s, "fin")
       [] ph = "fin" /\ m = "FIN" -> R(s, "up", If(c.ticket, <<"NST", "NST">>), "up")
       [] OTHER -> {}
   ELSE IF ~V13(s) THEN
     CASE ph = "sh" /\ m = "SH" -> Wait(s, "cert")
       [] ph = "cert" /\ m = "CERT" -> Wait(s, IF c.kx = "rsa" THEN "cr" ELSE "ske")
       [] ph = "ske" /\ m = "SKE" -> Wait(s, "cr")
       [] ph = "cr" /\ m = "CR" -> {[s |-> [s EXCEPT !.ph = "shd", !.cr = TRUE], out |-> <<<<>>, "wait", <<>>>>]}
       [] ph \in {"cr", "shd"} /\ m = "SHD" -> R(s, IF c.ticket THEN "nst" ELSE "ccs",
              If(s.cr, IF c.cert THEN <<"CERT">> ELSE <<"CERT0">>) \o <<"CKE">> \o If(s.cr /\ c.cert, <<"CV">>) \o <<"CCS", "FIN">>, "wait")
       [] ph = "nst" /\ m = "NST" -> Wait(s, "ccs")
       [] ph = "ccs" /\ m = "CCS" -> Wait(s, "fin")
       [] ph = "fin" /\ m = "FIN" -> R(s, "up", <<>>, "up")
       [] OTHER -> {}
   ELSE
     CASE ph = "sh" /\ m = "SH" -> Wait(s, "ee")
       [] ph = "sh" /\ m = "HRR" -> R(s, "sh2", <<"CCS", "CH">>, "wait")
       [] ph = "sh2" /\ m = "SH" -> Wait(s, "ee")
       [] ph = "ee" /\ m = "EE" -> Wait(s, "cr")
       [] ph = "cr" /\ m = "CR" -> {[s |-> [s EXCEPT !.ph = "cert", !.cr = TRUE], out |-> <<<<>>, "wait", <<>>>>]}
       [] ph \in {"cr", "cert"} /\ m = "CERT" -> Wait(s, "cv")
       [] ph = "cv" /\ m = "CV" -> Wait(s, "fin")
       [] ph = "fin" /\ m = "FIN" -> R(s, "up", If(~s.c.hrr, <<"CCS">>) \o If(s.cr, IF c.cert THEN <<"CERT", "CV">> ELSE <<"CERT0">>) \o <<"FIN">>, "up")
       [] OTHER -> {}

(* the messages that are in order in the state *)
Expected(s) ==
   LET c == s.c  ph == s.ph IN
   CASE ph \in {"ch", "ch2"} -> {"CH"}
     [] ph = "sh" -> IF V13(s) THEN {"SH", "HRR"} ELSE {"SH"}
     [] ph = "sh2" -> {"SH"}
     [] ph = "ee" -> {"EE"}
     [] ph = "cert" -> {"CERT"}
     [] ph = "ske" -> {"SKE"}
     [] ph = "cr" -> IF V13(s) THEN {"CR", "CERT"} ELSE {"CR", "SHD"}
     [] ph = "shd" -> {"SHD"}
     [] ph = "cke" -> {"CKE"}
     [] ph = "cv" -> {"CV"}
     [] ph = "nst" -> {"NST"}
     [] ph = "ccs" -> {"CCS"}
     [] ph = "fin" -> {"FIN"}
     [] OTHER -> {}

(* messages that are in order later, or not at all *)
Unexpected(s, m, v) ==
   CASE m = "HR" /\ s.c.role = "cli" -> Wait(s, s.ph)                                  \* ignored during a handshake
     [] m = "ALERT" /\ s.ph = "fin" /\ ~V13(s) /\ v \in {"warn", "close", "fatal"} -> Dead(s, {10})     \* Finished has to follow the change of keys
     [] m = "ALERT" /\ v = "warn" -> Wait(s, s.ph)
     [] m = "ALERT" /\ v = "close" -> {[s |-> [s EXCEPT !.ph = "dead"], out |-> <<<<>>, "dead", <<1, 0>>>>]}
     [] m = "ALERT" /\ v = "fatal" -> R(s, "dead", <<>>, "dead")
     [] m = "ALERT" -> Dead(s, {50, 47, 10})
     [] m = "CCS" /\ V13(s) /\ v = "ok" /\ s.ph \notin {"ch", "start"} -> Wait(s, s.ph)
     [] m = "REC" /\ v = "huge" -> Dead(s, {22, 10, 20})
     [] m = "REC" /\ v = "emptyhs" -> Wait(s, s.ph) \cup Dead(s, {10, 50})
     [] m = "REC" /\ v = "garbage" -> Dead(s, {10, 22, 70, 50})
     [] m = "REC" -> Dead(s, {10, 50})
     [] OTHER -> Dead(s, {10})

Send(s, i) ==
   IF s.ph = "dead" THEN R(s, "dead", <<>>, "dead")
   ELSE IF s.bk /\ s.ph = "fin" /\ i.v # "garbage" THEN Dead(s, {20, 51, 10, 22})
   ELSE IF s.bk /\ s.ph \in {"cr", "shd"} /\ i.m = "SHD" /\ i.v = "ok" THEN
        {[s |-> [s EXCEPT !.ph = "dead"], out |-> <<If(s.cr, IF s.c.cert THEN <<"CERT">> ELSE <<"CERT0">>) \o q, "dead", <<2, d>>>>] : d \in {47, 80, 40}, q \in {<<>>, <<"CKE">>}}
   ELSE IF s.ph = "start" THEN {}
   ELSE IF i.m \in Expected(s) THEN
        IF i.v = "ok" \/ i.v \in Harmless(s, i.m) \/ (i.m = "CERT" /\ i.v = "none" /\ s.c.role = "srv") THEN Good(s, i.m, i.v)
        ELSE IF i.m = "CCS" /\ i.v = "empty" THEN Wait(s, s.ph) \cup Dead(s, Alerts(s, i.m, i.v))
        ELSE IF i.m = "SKE" /\ i.v = "badpoint" THEN      \* signed by the right server; may be noticed only when the key is used
             {[s |-> [s EXCEPT !.ph = "cr", !.bk = TRUE], out |-> <<<<>>, "wait", <<>>>>]} \cup Dead(s, Alerts(s, i.m, i.v))
        ELSE IF i.m = "CKE" /\ i.v \in {"badver", "shortpms", "garbage"} THEN      \* the failure must not be told apart: it shows at Finished
             {[s |-> [s EXCEPT !.ph = IF s.cc THEN "cv" ELSE "ccs", !.bk = TRUE], out |-> <<<<>>, "wait", <<>>>>]}
        ELSE Dead(s, Alerts(s, i.m, i.v))
   ELSE Unexpected(s, i.m, i.v)

(* after the handshake: application data flows *)
Up(s, i) ==
   CASE i.m = "DATA" /\ i.v = "ok" -> R(s, "up", <<>>, "data")
     [] OTHER -> {}

Outcomes(s, i) ==
   CASE i.op = "start" -> IF s.ph = "start" THEN R(s, "sh", <<"CH">>, "wait") ELSE {}
     [] i.op = "send" -> IF s.ph = "up" THEN Up(s, i) ELSE Send(s, i)
     [] OTHER -> {}

---------------------------------------------------------------------------
Odd == {<<"ALERT", "warn">>, <<"ALERT", "close">>, <<"ALERT", "fatal">>, <<"ALERT", "short">>, <<"ALERT", "long">>, <<"ALERT", "level">>, <<"REC", "type">>, <<"REC", "emptyhs">>, <<"REC", "unk">>,
        <<"REC", "huge">>, <<"REC", "garbage">>}
Inputs(s) ==
   IF s.ph = "start" THEN {[op |-> "start"]}
   ELSE IF s.ph = "up" THEN {[op |-> "send", m |-> "DATA", v |-> "ok"]}
   ELSE IF s.ph = "dead" THEN {[op |-> "send", m |-> "DATA", v |-> "ok"]}
   ELSE {[op |-> "send", m |-> m, v |-> v] : m \in Expected(s), v \in {"ok"}}
        \cup UNION {{[op |-> "send", m |-> m, v |-> v] : v \in Var(s, m) \cup (IF m = "CCS" THEN {} ELSE IF m = "SHD" THEN {"long", "huge"} ELSE Form)} : m \in Expected(s)}
        \cup {[op |-> "send", m |-> m, v |-> "ok", x |-> TRUE] : m \in Others \ Expected(s)}
        \cup (IF s.ph = "sh2" THEN {[op |-> "send", m |-> "HRR", v |-> "ok", x |-> TRUE]} ELSE {})
        \cup {[op |-> "send", m |-> o[1], v |-> o[2]] : o \in Odd}

Inv(s) == TRUE
(* established only through Finished in the right place *)
TransInv(s, i, o, t) == (o[2] = "up") => (s.ph = "fin" /\ i.m = "FIN" /\ i.v = "ok")
=============================================================================
