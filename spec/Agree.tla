------------------------------- MODULE Agree -------------------------------
(* Two key contexts a and b of one algorithm for key agreement ("kex"), key encapsulation ("kem") or public-key  *)
(* encryption ("enc"). Keys are numbered; 0 is no key, -1 a public key no secret may be agreed with. At most one *)
(* ciphertext is about, made for a key from a message under a setting.                                           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Algs, Ops, Muts, BadPubs, BadPrvs, MaxKey

Kind(alg) == CASE alg \in {"x25519", "ecdh", "dh"} -> "kex" [] alg \in {"mlkem", "hybrid"} -> "kem" [] OTHER -> "enc"
Configs == {[alg |-> a] : a \in Algs}
None == [k |-> 0, m |-> 0, set |-> 0]
InitState(c) == [alg |-> c.alg, n |-> 2, a |-> [pub |-> 0, prv |-> 0, set |-> 0], b |-> [pub |-> 0, prv |-> 0, set |-> 0], ct |-> None]
Other(e) == IF e = "a" THEN "b" ELSE "a"

Carries(alg) == alg = "mlkem"                                    \* the private key contains the public key
Once(alg) == alg = "mlkem"                                       \* keys are set on an empty context only
Sets(alg) == IF alg = "oaep" THEN {0, 1} ELSE {0}
Late(alg) == alg \in {"x25519", "dh"}                            \* a useless public key may be noticed when it is used
Derives(alg) == alg \in {"x25519", "hybrid"}
Anew(alg) == alg = "hybrid"                                      \* the keys come into a new context

R(s, e, x, o) == [s |-> [s EXCEPT ![e] = x], out |-> o]

SetPub(s, i) ==
   LET x == s[i.c] IN
   IF Once(s.alg) /\ (x.pub # 0 \/ x.prv # 0) THEN {R(s, i.c, x, <<"err">>)} ELSE {R(s, i.c, [x EXCEPT !.pub = i.k, !.prv = IF Anew(s.alg) THEN 0 ELSE @], <<"ok">>)}
SetPrv(s, i) ==
   LET x == s[i.c] IN
   IF Once(s.alg) /\ (x.pub # 0 \/ x.prv # 0) THEN {R(s, i.c, x, <<"err">>)}
   ELSE {R(s, i.c, [x EXCEPT !.prv = i.k, !.pub = IF Carries(s.alg) THEN i.k ELSE IF Anew(s.alg) THEN 0 ELSE @], <<"ok">>)}
BadPub(s, i) == {R(s, i.c, s[i.c], <<"err">>)} \cup (IF Late(s.alg) THEN {R(s, i.c, [s[i.c] EXCEPT !.pub = -1], <<"ok">>)} ELSE {})
(* of two part keys the first may have been taken *)
BadPrv(s, i) == {R(s, i.c, s[i.c], <<"err">>)}
Gen(s, i) ==
   IF i.rand THEN {[s |-> [s EXCEPT ![i.c].pub = s.n + 1, ![i.c].prv = s.n + 1, !.n = @ + 1], out |-> <<"ok">>]}
   ELSE {R(s, i.c, x, <<"err">>) : x \in {[s[i.c] EXCEPT !.pub = 0, !.prv = 0], s[i.c]}}
GetPub(s, i) == {R(s, i.c, s[i.c], IF s[i.c].pub = 0 THEN <<"err">> ELSE <<"key", s[i.c].pub>>)}
                \cup (IF s[i.c].pub = 0 /\ Derives(s.alg) /\ s[i.c].prv # 0 THEN {R(s, i.c, [s[i.c] EXCEPT !.pub = s[i.c].prv], <<"key", s[i.c].prv>>)} ELSE {})
GetPrv(s, i) == {R(s, i.c, s[i.c], IF s[i.c].prv = 0 THEN <<"err">> ELSE <<"key", s[i.c].prv>>)}
Set(s, i) == {R(s, i.c, [s[i.c] EXCEPT !.set = i.v], <<"ok">>)}
Dup(s, i) == {[s |-> [s EXCEPT ![Other(i.c)] = s[i.c]], out |-> <<"ok">>]}

(* <<"ok", it is the secret of the independent implementation>> *)
Share(s, i) ==
   {[s |-> s, out |-> IF s[i.c].prv # 0 /\ s[Other(i.c)].pub > 0 /\ i.room = "full" THEN <<"ok", TRUE>> ELSE <<"err">>]}

(* <<"ok", the independent implementation gets the secret or message from it, it is a new one>> *)
Seal(s, i) ==
   LET x == s[i.c]
       can == x.pub # 0 /\ i.room = "full" /\ i.rand /\ (i.m # 2) IN
   {[s |-> IF can THEN [s EXCEPT !.ct = [k |-> x.pub, m |-> i.m, set |-> x.set]] ELSE s, out |-> IF can THEN <<"ok", TRUE, TRUE>> ELSE <<"err">>]}

(* kem: <<"same" or "other", it is the secret of the independent implementation>>; enc: <<"msg", number>> *)
Open(s, i) ==
   LET x == s[i.c]  g == s.ct
       mine == x.prv # 0 /\ x.prv = g.k
       O(o) == {[s |-> s, out |-> o]} IN
   IF g = None THEN {}
   ELSE IF x.prv = 0 \/ i.room = "short" \/ i.mut \in {"cut", "long", "empty"} THEN O(<<"err">>)
   ELSE IF Kind(s.alg) = "kem" THEN
        IF i.mut = "bad" THEN O(<<"err">>)
        ELSE IF i.mut = "flip" /\ s.alg = "hybrid" THEN O(<<"err">>) \cup O(<<"other", TRUE>>)
        ELSE O(<<IF mine /\ i.mut = "none" THEN "same" ELSE "other", TRUE>>)
   ELSE IF mine /\ i.mut \in {"none", "least"} /\ x.set = g.set THEN O(<<"msg", g.m>>)
   (* without the key or with another ciphertext: not the message; the padding of PKCS#1 v1.5 may be met by chance *)
   ELSE O(<<"err">>) \cup (IF s.alg = "pkcs1" /\ i.mut # "form" THEN O(<<"msg", -1>>) ELSE {})

Outcomes(s, i) ==
   CASE i.op = "setpub" -> SetPub(s, i)
     [] i.op = "setprv" -> SetPrv(s, i)
     [] i.op = "badpub" -> BadPub(s, i)
     [] i.op = "badprv" -> BadPrv(s, i)
     [] i.op = "gen" -> Gen(s, i)
     [] i.op = "getpub" -> GetPub(s, i)
     [] i.op = "getprv" -> GetPrv(s, i)
     [] i.op = "set" -> Set(s, i)
     [] i.op = "dup" -> Dup(s, i)
     [] i.op = "share" -> Share(s, i)
     [] i.op = "seal" -> Seal(s, i)
     [] i.op = "open" -> Open(s, i)

Cs == {"a", "b"}
Rooms == {"full", "short"}
Inputs(s) ==
   {[op |-> "setpub", c |-> c, k |-> k] : c \in Cs, k \in 1..2} \cup {[op |-> "setprv", c |-> c, k |-> k] : c \in Cs, k \in 1..2}
   \cup (IF s.n < MaxKey THEN {[op |-> "gen", c |-> c, rand |-> r] : c \in Cs, r \in {TRUE, FALSE}} ELSE {})
   \cup {[op |-> o, c |-> c] : o \in {"getpub", "getprv"} \cup (IF Anew(s.alg) THEN {} ELSE {"dup"}), c \in Cs}
   \cup (IF "bad" \in Ops THEN {[op |-> "badpub", c |-> c, v |-> v] : c \in Cs, v \in BadPubs} \cup {[op |-> "badprv", c |-> c, v |-> v] : c \in Cs, v \in BadPrvs} ELSE {})
   \cup (IF Sets(s.alg) = {0} THEN {} ELSE {[op |-> "set", c |-> c, v |-> v] : c \in Cs, v \in Sets(s.alg)})
   \cup (IF Kind(s.alg) = "kex" THEN {[op |-> "share", c |-> c, room |-> r] : c \in Cs, r \in Rooms}
         ELSE {[op |-> "seal", c |-> c, m |-> m, room |-> "full", rand |-> TRUE] : c \in Cs, m \in (IF Kind(s.alg) = "enc" THEN (IF s.alg = "sm2" THEN {0, 1} ELSE {0, 1, 2}) ELSE {0})}
              \cup {[op |-> "seal", c |-> c, m |-> 0, room |-> "short", rand |-> TRUE] : c \in Cs}
              \cup {[op |-> "seal", c |-> c, m |-> 0, room |-> "full", rand |-> FALSE] : c \in Cs}
              \cup (IF s.ct = None THEN {} ELSE {[op |-> "open", c |-> c, mut |-> u, room |-> "full"] : c \in Cs, u \in Muts} \cup {[op |-> "open", c |-> c, mut |-> "none", room |-> "short"] : c \in Cs}))

Inv(s) == s.ct.k <= s.n
(* a secret comes out only where there is a private key; the message only with the right one; what is refused changes no key *)
TransInv(s, i, o, t) ==
   /\ i.op = "open" /\ o[1] \in {"same", "msg"} => s[i.c].prv # 0 /\ (o[1] = "same" \/ o[2] # -1 => s[i.c].prv = s.ct.k)
   /\ i.op = "share" /\ o[1] = "ok" => s[i.c].prv # 0 /\ s[Other(i.c)].pub > 0
   /\ o[1] = "err" /\ i.op # "gen" => s = t
   /\ i.op \in {"share", "open"} => s = t
==============================================================================
