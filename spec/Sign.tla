-------------------------------- MODULE Sign --------------------------------
(* Two public-key contexts a and b of one signature algorithm. Keys are numbered; 0 is no key. A context holds  *)
(* a public key, a private key and a setting (digest, padding, identity or context string). There is at most    *)
(* one signature around, made with a key over a message under a setting.                                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Algs, Ops, Muts, BadPubs, BadPrvs, MaxKey

Configs == {[alg |-> a] : a \in Algs}
None == [k |-> 0, m |-> 0, set |-> 0]
InitState(c) == [alg |-> c.alg, n |-> 2, a |-> [pub |-> 0, prv |-> 0, set |-> 0], b |-> [pub |-> 0, prv |-> 0, set |-> 0], sig |-> None]
Other(e) == IF e = "a" THEN "b" ELSE "a"

Carries(alg) == alg \in {"mldsa", "slh"}                         \* the private key contains the public key
Sets(alg) == IF alg = "ed" THEN {0} ELSE {0, 1}
Hashes(alg) == alg \in {"rsa", "pss", "ecdsa", "dsa", "sm2"}     \* can sign a digest
Twins(alg) == alg = "ecdsa"                                    \* (r, -s) is a signature too
NeedsRand(alg) == alg \in {"ecdsa", "dsa", "sm2"}
Derives(alg) == alg \in {"ed", "sm2"}                            \* signing works the public key out when there is none
Once(alg) == alg \in {"mldsa"}                                   \* a key is set once

R(s, e, x, o) == [s |-> [s EXCEPT ![e] = x], out |-> o]

SetPub(s, i) ==
   LET x == s[i.c] IN
   IF (Once(s.alg) /\ x.pub \notin {0, i.k}) \/ (Carries(s.alg) /\ x.prv \notin {0, i.k}) THEN {R(s, i.c, x, <<"err">>)}
   ELSE {R(s, i.c, [x EXCEPT !.pub = i.k], <<"ok">>)}
SetPrv(s, i) ==
   LET x == s[i.c] IN
   IF Once(s.alg) /\ (x.prv # 0 \/ x.pub \notin {0, i.k}) THEN {R(s, i.c, x, <<"err">>)}
   ELSE {R(s, i.c, [x EXCEPT !.prv = i.k, !.pub = IF Carries(s.alg) THEN i.k ELSE @], <<"ok">>)}
Bad(s, i) == {R(s, i.c, s[i.c], <<"err">>)}
(* a key that could not be made leaves the keys that were there, or none *)
Gen(s, i) ==
   IF i.rand THEN {[s |-> [s EXCEPT ![i.c].pub = s.n + 1, ![i.c].prv = s.n + 1, !.n = @ + 1], out |-> <<"ok">>]}
   ELSE {R(s, i.c, x, <<"err">>) : x \in {[s[i.c] EXCEPT !.pub = 0, !.prv = 0], s[i.c]}}
(* what is exported is what was put in *)
GetPub(s, i) == {R(s, i.c, s[i.c], IF s[i.c].pub = 0 THEN <<"err">> ELSE <<"key", s[i.c].pub>>)}
GetPrv(s, i) == {R(s, i.c, s[i.c], IF s[i.c].prv = 0 THEN <<"err">> ELSE <<"key", s[i.c].prv>>)}
Set(s, i) == {R(s, i.c, [s[i.c] EXCEPT !.set = i.v], <<"ok">>)}

(* <<"ok", valid for the independent implementation, the randomness was not used before>> *)
Sign(s, i) ==
   LET x == s[i.c]
       d == Derives(s.alg) /\ (s.alg = "ed" \/ i.how = "data")
       y == IF d /\ x.pub = 0 THEN [x EXCEPT !.pub = x.prv] ELSE x
       ok == [s |-> [s EXCEPT !.sig = [k |-> x.prv, m |-> i.m, set |-> x.set], ![i.c] = y], out |-> <<"ok", TRUE, TRUE>>]
       no == [s |-> s, out |-> <<"err">>] IN
   IF x.prv = 0 \/ i.room = "short" \/ (i.how = "hash" /\ ~Hashes(s.alg)) THEN {no} \cup (IF x.prv # 0 THEN {[s |-> [s EXCEPT ![i.c] = y], out |-> <<"err">>]} ELSE {})
   (* with a public key of another one: no signature of this key *)
   ELSE IF d /\ x.pub # 0 /\ x.pub # x.prv THEN {[s |-> [s EXCEPT !.sig = None], out |-> <<"ok", FALSE, TRUE>>], no}
   ELSE IF i.rand THEN {ok}
   ELSE IF NeedsRand(s.alg) THEN {no, [s |-> [s EXCEPT ![i.c] = y], out |-> <<"err">>]} ELSE {ok, no}

Verify(s, i) ==
   LET x == s[i.c]  g == s.sig
       good == x.pub # 0 /\ x.pub = g.k /\ i.m = g.m /\ x.set = g.set /\ (i.mut = "none" \/ (i.mut = "twin" /\ Twins(s.alg))) IN
   IF g = None THEN {}
   ELSE {[s |-> s, out |-> <<IF good /\ (i.how = "data" \/ Hashes(s.alg)) THEN "valid" ELSE "invalid">>]}

(* a copy behaves like the original *)
Dup(s, i) == {[s |-> [s EXCEPT ![Other(i.c)] = s[i.c]], out |-> <<"ok">>]}
(* a context without a public key may be compared by its private key *)
Cmp(s, i) ==
   LET K(x) == {x.pub, x.prv} \ {0}
       same == {"equal"}  other == {"different"}  any == same \cup other IN
   {[s |-> s, out |-> <<x>>] : x \in
      IF s.a.pub # 0 /\ s.b.pub # 0 THEN (IF s.a.pub # s.b.pub THEN other ELSE IF s.a.prv = s.b.prv THEN same ELSE any)
      ELSE IF K(s.a) \cap K(s.b) # {} \/ (K(s.a) = {} /\ K(s.b) = {}) THEN any ELSE other}
(* the public key of i.c belongs to the private key of the other *)
Pair(s, i) ==
   LET p == s[i.c].pub  v == s[Other(i.c)].prv IN
   {[s |-> s, out |-> <<x>>] : x \in IF p = 0 \/ v = 0 \/ p # v THEN {"no"} ELSE {"yes"}}

Outcomes(s, i) ==
   CASE i.op = "setpub" -> SetPub(s, i)
     [] i.op = "setprv" -> SetPrv(s, i)
     [] i.op \in {"badpub", "badprv"} -> Bad(s, i)
     [] i.op = "gen" -> Gen(s, i)
     [] i.op = "getpub" -> GetPub(s, i)
     [] i.op = "getprv" -> GetPrv(s, i)
     [] i.op = "set" -> Set(s, i)
     [] i.op = "sign" -> Sign(s, i)
     [] i.op = "verify" -> Verify(s, i)
     [] i.op = "dup" -> Dup(s, i)
     [] i.op = "cmp" -> Cmp(s, i)
     [] i.op = "pair" -> Pair(s, i)

Cs == {"a", "b"}
Hows(s) == IF Hashes(s.alg) \/ "all" \in Ops THEN {"data", "hash"} ELSE {"data"}
Inputs(s) ==
   {[op |-> "setpub", c |-> c, k |-> k] : c \in Cs, k \in 1..2} \cup {[op |-> "setprv", c |-> c, k |-> k] : c \in Cs, k \in 1..2}
   \cup (IF s.n < MaxKey THEN {[op |-> "gen", c |-> c, rand |-> r] : c \in Cs, r \in {TRUE, FALSE}} ELSE {})
   \cup (IF "get" \in Ops THEN {[op |-> o, c |-> c] : o \in {"getpub", "getprv"}, c \in Cs} ELSE {})
   \cup (IF "bad" \in Ops THEN {[op |-> "badpub", c |-> c, v |-> v] : c \in Cs, v \in BadPubs} \cup {[op |-> "badprv", c |-> c, v |-> v] : c \in Cs, v \in BadPrvs} ELSE {})
   \cup {[op |-> "set", c |-> c, v |-> v] : c \in Cs, v \in Sets(s.alg)}
   \cup {[op |-> "sign", c |-> c, m |-> m, how |-> h, room |-> "full", rand |-> TRUE] : c \in Cs, m \in 0..1, h \in Hows(s)}
   \cup {[op |-> "sign", c |-> c, m |-> 0, how |-> h, room |-> "short", rand |-> TRUE] : c \in Cs, h \in Hows(s)}
   \cup {[op |-> "sign", c |-> c, m |-> 1, how |-> "data", room |-> "full", rand |-> FALSE] : c \in Cs}
   \cup (IF s.sig = None THEN {} ELSE {[op |-> "verify", c |-> c, m |-> m, how |-> h, mut |-> "none"] : c \in Cs, m \in 0..1, h \in Hows(s)}
                                      \cup {[op |-> "verify", c |-> c, m |-> s.sig.m, how |-> h, mut |-> u] : c \in Cs, u \in Muts, h \in Hows(s)})
   \cup {[op |-> "dup", c |-> c] : c \in Cs} \cup {[op |-> "cmp", c |-> "a"]} \cup (IF "pair" \in Ops THEN {[op |-> "pair", c |-> c] : c \in Cs} ELSE {})

Inv(s) == s.sig.k <= s.n
(* nothing is signed without a private key; nothing passes but what was signed by that key; what is refused changes nothing *)
TransInv(s, i, o, t) ==
   /\ i.op = "sign" /\ o[1] = "ok" => s[i.c].prv # 0
   /\ i.op = "verify" /\ o[1] = "valid" => s[i.c].pub = s.sig.k /\ i.m = s.sig.m
   /\ o[1] = "err" /\ i.op # "gen" => s.sig = t.sig /\ s.a.prv = t.a.prv /\ s.b.prv = t.b.prv
==============================================================================
