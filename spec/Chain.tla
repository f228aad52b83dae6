---- MODULE Chain ----
(* Certification path validation (RFC 5280 section 6 as the library documents it): a store with
   trusted certificates, revocation lists, flags, a time, a depth, a purpose; verifying a list of
   certificates succeeds iff the path from its first certificate to a trusted one has no fault.

   c.certs[n]: s subject, i issuer (names), k key, by signing key ("none": the signature is bad),
     ski / aki ("" absent, else a key), v version, bc ("no", "ca", "ee"), pl path length or -1,
     ku ("" absent or letters), eku (<<>> absent or names), nb / na validity, ext ("no", "plain", "crit"),
     alg (inner = outer algorithm), md the hash of the signature, cdp (<<>> or [dp, reasons])
   c.crls[n]: i issuer, by, aki, tu / nu (-1 absent), rev <<cert, "" or reason>>, scope, reasons, dp ("" or a name),
     ext, num (-1 absent), delta (-1: not a delta list), alg *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Aspect, Depth,
          Lite      \* TRUE: the library was built with basic revocation list processing only

Range(q) == {q[j] : j \in DOMAIN q}
Now == 500
KeyAlg(k) == CASE k \in {"a", "b", "c", "d", "e", "q"} -> "ec" [] k \in {"r", "w"} -> "rsa" [] OTHER -> "ed"
Letters(ku) == CASE ku = "sc" -> {"s", "c"} [] ku = "cr" -> {"c", "r"} [] ku = "cs" -> {"c", "s"} [] ku = "crs" -> {"c", "r", "s"} [] OTHER -> {ku}
KeyBits(k) == CASE k = "q" -> 192 [] k = "r" -> 112 [] k = "w" -> 80 [] OTHER -> 128
MdBits(c) == IF KeyAlg(c.sk) = "ed" THEN 999 ELSE CASE c.md = "sha1" -> 63 [] c.md = "sha256" -> 128 [] c.md = "sha384" -> 192 [] OTHER -> 256

-----------------------------------------------------------------------------
(* worlds *)
Leaf == [s |-> "L", i |-> "B", k |-> "a", sk |-> "c", by |-> "c", ski |-> "a", aki |-> "c", v |-> 3, bc |-> "ee", pl |-> -1, ku |-> "s", eku |-> <<"server">>,
         nb |-> 10, na |-> 1000, ext |-> "no", alg |-> TRUE, md |-> "sha256", cdp |-> <<>>]
IntB == [Leaf EXCEPT !.s = "B", !.i = "A", !.k = "c", !.sk = "b", !.by = "b", !.ski = "c", !.aki = "b", !.bc = "ca", !.ku = "cr", !.eku = <<>>]
IntA == [IntB EXCEPT !.s = "A", !.i = "R", !.k = "b", !.sk = "d", !.by = "d", !.ski = "b", !.aki = "d"]
Root == [IntB EXCEPT !.s = "R", !.i = "R", !.k = "d", !.sk = "d", !.by = "d", !.ski = "d", !.aki = "d"]
Good == <<Leaf, IntB, IntA, Root>>

Faulty(x) ==      \* one certificate varied in one way
   LET ca == x.bc = "ca" IN
   {[x EXCEPT !.by = "none"], [x EXCEPT !.by = "e"], [x EXCEPT !.alg = FALSE], [x EXCEPT !.ext = "crit"], [x EXCEPT !.ext = "plain"],
    [x EXCEPT !.aki = ""], [x EXCEPT !.aki = "e"], [x EXCEPT !.ski = ""], [x EXCEPT !.ski = "e"], [x EXCEPT !.i = "Z"], [x EXCEPT !.s = "Z"], [x EXCEPT !.k = "e"],
    [x EXCEPT !.nb = 500 + 400], [x EXCEPT !.na = 20], [x EXCEPT !.nb = 20], [x EXCEPT !.bc = "no"], [x EXCEPT !.bc = IF ca THEN "ee" ELSE "ca"],
    [x EXCEPT !.ku = ""], [x EXCEPT !.ku = "s"], [x EXCEPT !.ku = "r"], [x EXCEPT !.ku = "c"], [x EXCEPT !.ku = "e"], [x EXCEPT !.ku = "sc"],
    [x EXCEPT !.eku = <<"client">>], [x EXCEPT !.eku = <<>>], [x EXCEPT !.eku = <<"client", "server">>], [x EXCEPT !.eku = <<"any">>],
    [x EXCEPT !.v = 1, !.bc = "no", !.ku = "", !.eku = <<>>, !.ski = "", !.aki = "", !.ext = "no"], [x EXCEPT !.md = "sha1"], [x EXCEPT !.md = "sha384"], x}
   \cup (IF ca THEN {[x EXCEPT !.pl = n] : n \in 0..2} ELSE {})
Vary(n) == {[Good EXCEPT ![n] = x] : x \in Faulty(Good[n])}
W(cs, ls) == [certs |-> cs, crls |-> ls]
Crl == [i |-> "B", by |-> "c", sk |-> "c", aki |-> "c", tu |-> 10, nu |-> 900, rev |-> <<>>, scope |-> "all", reasons |-> "all", dp |-> "", ext |-> "no", num |-> 5, delta |-> -1, alg |-> TRUE]
CrlA == [Crl EXCEPT !.i = "A", !.by = "b", !.sk = "b", !.aki = "b"]
CrlR == [Crl EXCEPT !.i = "R", !.by = "d", !.sk = "d", !.aki = "d"]
FaultyCrl(x, n) == {x, [x EXCEPT !.by = "none"], [x EXCEPT !.by = "e"], [x EXCEPT !.i = "Z"], [x EXCEPT !.aki = ""], [x EXCEPT !.aki = "e"], [x EXCEPT !.tu = 600], [x EXCEPT !.nu = 30],
    [x EXCEPT !.nu = -1], [x EXCEPT !.rev = <<<<n, "">>>>], [x EXCEPT !.rev = <<<<n, "kc">>>>], [x EXCEPT !.rev = <<<<7, "">>, <<n, "">>>>], [x EXCEPT !.rev = <<<<n, "remove">>>>],
    [x EXCEPT !.rev = <<<<7, "">>>>], [x EXCEPT !.scope = "user"], [x EXCEPT !.scope = "ca"], [x EXCEPT !.scope = "attr"], [x EXCEPT !.reasons = "kc"], [x EXCEPT !.reasons = "rest"],
    [x EXCEPT !.dp = "u"], [x EXCEPT !.ext = "crit"], [x EXCEPT !.ext = "plain"], [x EXCEPT !.alg = FALSE], [x EXCEPT !.num = -1]}
Delta(x, n) == {[x EXCEPT !.tu = 40, !.num = 7, !.delta = 5, !.rev = r] : r \in {<<>>, <<<<n, "">>>>, <<<<n, "remove">>>>}}
             \cup {[x EXCEPT !.tu = 40, !.num = a, !.delta = b, !.rev = <<<<n, "">>>>] : a \in {4, 5, 6}, b \in {4, 5, 6}}
             \cup {[y EXCEPT !.num = 8, !.delta = 5, !.tu = 50] : y \in FaultyCrl([x EXCEPT !.rev = <<<<n, "">>>>], n)}
Configs ==
   CASE Aspect = "path" -> UNION {{W(w, <<>>) : w \in Vary(n)} : n \in 1..4}
     [] Aspect = "crl" -> {W(Good, <<x, CrlA, CrlR>>) : x \in FaultyCrl(Crl, 1)} \cup {W(Good, <<Crl, x, CrlR>>) : x \in FaultyCrl(CrlA, 2)}
                      \cup {W(Good, <<Crl, CrlA, x>>) : x \in FaultyCrl(CrlR, 3)}
                      \cup {W([Good EXCEPT ![2].ku = k], <<Crl, CrlA, CrlR>>) : k \in {"", "c", "cr", "cs"}}
     [] Aspect = "delta" -> {W(Good, <<b, x>>) : b \in {Crl, [Crl EXCEPT !.rev = <<<<1, "hold">>>>], [Crl EXCEPT !.nu = 30]}, x \in Delta(Crl, 1)}
     [] OTHER -> {W(Good, <<>>)}

CanTrust(x) == x.v # 3 \/ x.bc = "ca"
InitState(c) == [c |-> c, trust |-> <<>>, crls |-> <<>>, flags |-> {}, time |-> -1, depth |-> 20, purpose |-> "", bits |-> 0, n |-> 0]

-----------------------------------------------------------------------------
(* the path *)
AkiOk(y, x) == y.v # 3 \/ x.v # 3 \/ y.ski = "" \/ x.aki = "" \/ y.ski = x.aki
IssuedBy(y, x) == y.s = x.i /\ AkiOk(y, x) /\ KeyAlg(y.k) = KeyAlg(x.sk)
OwnName(x) == x.s = x.i
SelfIssuing(x) == OwnName(x) /\ IssuedBy(x, x)
SelfSigned(x) == SelfIssuing(x) /\ x.by = x.k /\ x.alg
RECURSIVE Extend(_, _, _)
Extend(s, chain, p) ==       \* all paths a search that prefers the trusted certificates may end with
   LET C == s.c.certs
       x == C[p[Len(p)]]
       T == {j \in Range(s.trust) : IssuedBy(C[j], x)}
       U == {j \in Range(chain) \ {p[Len(p)]} : IssuedBy(C[j], x)}
       next == IF T # {} THEN T ELSE U
       done == {j \in T : "partial" \in s.flags \/ SelfIssuing(C[j])}
       more == {j \in next \ done : j \notin Range(p) /\ ~SelfSigned(C[j])}
   IN {IF j = p[1] THEN p ELSE Append(p, j) : j \in {k \in done : k = p[1] \/ k \notin Range(p)}} \cup UNION {Extend(s, chain, Append(p, j)) : j \in more}
Paths(s, chain) == Extend(s, chain, <<chain[1]>>)
RECURSIVE Stuck(_, _, _)
Stuck(s, chain, p) ==        \* a search that does not turn back may fail to end at all
   LET C == s.c.certs
       x == C[p[Len(p)]]
       T == {j \in Range(s.trust) : IssuedBy(C[j], x)}
       U == {j \in Range(chain) \ {p[Len(p)]} : IssuedBy(C[j], x)}
       next == IF T # {} THEN T ELSE U
       done == {j \in T : "partial" \in s.flags \/ SelfIssuing(C[j])}
       more == next \ done
   IN next = {} \/ \E j \in more : SelfSigned(C[j]) \/ j \in Range(p) \/ Stuck(s, chain, Append(p, j))

-----------------------------------------------------------------------------
(* revocation *)
All == {"kc", "rest"}
Mask(r) == IF r = "all" THEN All ELSE {r}
Early(s, t) == t > (IF s.time = -1 THEN Now ELSE s.time)
Late(s, t) == t < (IF s.time = -1 THEN Now ELSE s.time)
TimeOff(s) == "notime" \in s.flags /\ s.time = -1
CrlTime(s, l) == IF TimeOff(s) THEN "" ELSE IF Early(s, l.tu) THEN "early" ELSE IF l.nu # -1 /\ Late(s, l.nu) THEN "late" ELSE ""
CrlAki(y, l) == y.v # 3 \/ y.ski = "" \/ l.aki = "" \/ y.ski = l.aki
Lists(s) == {s.c.crls[j] : j \in Range(s.crls)}
IsCa(x) == x.bc = "ca"
InScope(x, l) == ~(l.scope = "user" /\ IsCa(x)) /\ ~(l.scope = "ca" /\ ~IsCa(x)) /\ l.scope # "attr"
               /\ (x.cdp = <<>> => l.dp = "") /\ (x.cdp # <<>> => \E d \in Range(x.cdp) : l.dp \in {"", d[1]})
Covers(x, l) == IF InScope(x, l) /\ x.cdp # <<>>
                THEN Mask(l.reasons) \cap UNION {Mask(d[2]) : d \in {e \in Range(x.cdp) : l.dp \in {"", e[1]}}}
                ELSE Mask(l.reasons)
Newest(ls) == CHOOSE l \in ls : \A m \in ls : m.tu <= l.tu
DeltaFor(s, l) ==
   LET d == {m \in Lists(s) : m.delta # -1 /\ m.delta <= l.num /\ m.i = l.i /\ m.aki = l.aki /\ m.scope = l.scope /\ m.reasons = l.reasons
                              /\ m.dp = l.dp /\ m.num > l.num}
   IN IF "delta" \notin s.flags \/ l.num = -1 \/ d = {} THEN <<>> ELSE <<Newest(d)>>
Entry(l, n) == {e[2] : e \in {f \in Range(l.rev) : f[1] = n}}
SigErr(l, y) == (IF l.by # y.k \/ KeyAlg(l.sk) # KeyAlg(y.k) THEN {"crlsig"} ELSE {}) \cup (IF ~l.alg \/ KeyAlg(l.sk) # KeyAlg(y.k) THEN {"alg"} ELSE {})
Unknown(s, l) == l.ext = "crit"
TimeErr(s, l, d) == IF d = <<>> THEN CrlTime(s, l) # "" ELSE CrlTime(s, d[1]) # "" \/ CrlTime(s, l) = "early"
Err(s, x, l) == (IF TimeErr(s, l, DeltaFor(s, l)) THEN 1 ELSE 0) + (IF InScope(x, l) THEN 0 ELSE 2) + (IF Unknown(s, l) THEN 4 ELSE 0)
RECURSIVE Revoked(_, _, _, _)
Revoked(s, n, y, got) ==     \* the faults of certificate n found in the lists of its issuer y
   LET x == s.c.certs[n]
       cand == {l \in Lists(s) : l.delta = -1 /\ l.i = y.s /\ CrlAki(y, l) /\ Covers(x, l) \ got # {}}
       best == {l \in cand : \A m \in cand : Err(s, x, l) <= Err(s, x, m)}
       l == Newest(best)
       d == DeltaFor(s, l)
       ent == IF d # <<>> /\ Entry(d[1], n) # {} THEN Entry(d[1], n) \ {"remove"} ELSE Entry(l, n)
       f == (IF Err(s, x, l) % 2 = 1 THEN {"crltime"} ELSE {}) \cup (IF Err(s, x, l) % 4 > 1 THEN {"crlscope"} ELSE {}) \cup (IF Err(s, x, l) > 3 THEN {"critext"} ELSE {})
            \cup (IF y.ku # "" /\ "r" \notin Letters(y.ku) THEN {"crlku"} ELSE {})
            \cup SigErr(l, y)
            \cup (IF d # <<>> THEN (IF Unknown(s, d[1]) THEN {"critext"} ELSE {}) \cup SigErr(d[1], y) \cup (IF SigErr(d[1], y) # {} THEN {"crlsig"} ELSE {}) ELSE {})
            \cup (IF ent # {} THEN {"revoked"} ELSE {})
   IN IF got = All THEN {} ELSE IF cand = {} THEN {"nocrl"} ELSE IF f # {} THEN f ELSE Revoked(s, n, y, got \cup Covers(x, l))
RevokedLite(s, n, y) ==
   LET cand == {l \in Lists(s) : l.i = y.s /\ CrlAki(y, l) /\ CrlTime(s, l) = ""}
       bad(l) == Unknown(s, l) \/ l.scope # "all" \/ l.reasons # "all" \/ l.dp # "" \/ l.delta # -1        \* critical extensions this mode does not know
   IN (IF y.ku # "" /\ "r" \notin Letters(y.ku) THEN {"crlku"} ELSE {})
      \cup (IF cand = {} THEN {"nocrl"} ELSE {})
      \cup UNION {(IF bad(l) THEN {"critext"} ELSE {}) \cup SigErr(l, y) \cup (IF Entry(l, n) # {} THEN {"revoked"} ELSE {}) : l \in cand}

-----------------------------------------------------------------------------
(* the faults of a path *)
Ku(x, letters) == x.ku = "" \/ Letters(x.ku) \cap letters # {}
Purposes == [server |-> <<{"s", "e", "a", "n", "d"}, "server">>, client |-> <<{"s", "e", "a", "n", "d"}, "client">>, sign |-> <<{"s", "n"}, "email">>,
             encrypt |-> <<{"e"}, "email">>, code |-> <<{"s"}, "code">>, ocsp |-> <<{"s", "n"}, "ocsp">>, time |-> <<{"s", "n"}, "time">>]
Faults(s, p) ==
   LET C(j) == s.c.certs[p[j]]
       n == Len(p)
       me == C(n)
       anchor == "partial" \in s.flags /\ n > 1 /\ ~SelfSigned(me)      \* a trusted certificate that is not a root
       notOwn(k) == Cardinality({j \in 2..k-1 : ~OwnName(C(j))})
   IN (IF "bits" \in s.flags /\ ((\E j \in 1..n : KeyBits(C(j).k) < s.bits) \/ (\E j \in 1..n-1 : MdBits(C(j)) < s.bits)) THEN {"secbits"} ELSE {})
      \cup (IF \E j \in 1..n : C(j).v = 3 /\ (C(j).ext = "crit") THEN {"critext"} ELSE {})
      \cup (IF (n > 1 /\ me.v = 3 /\ me.bc # "ca") \/ \E j \in 2..n-1 : C(j).v # 3 \/ C(j).bc # "ca" THEN {"ca"} ELSE {})
      \cup (IF \E j \in 2..n : ~Ku(C(j), {"c"}) THEN {"certsign"} ELSE {})
      \cup (IF \E j \in 2..n : C(j).pl >= 0 /\ notOwn(j) > C(j).pl THEN {"pathlen"} ELSE {})
      \cup (IF s.purpose \in DOMAIN Purposes /\ (~Ku(C(1), Purposes[s.purpose][1]) \/ (C(1).eku # <<>> /\ Purposes[s.purpose][2] \notin Range(C(1).eku))) THEN {"purpose"} ELSE {})
      \cup (IF ~TimeOff(s) /\ \E j \in 1..n : Early(s, C(j).nb) THEN {"early"} ELSE {})
      \cup (IF ~TimeOff(s) /\ \E j \in 1..n : Late(s, C(j).na) THEN {"late"} ELSE {})
      \cup (IF \E j \in 1..n : ~C(j).alg /\ ~(anchor /\ j = n) THEN {"alg"} ELSE {})
      \cup (IF (\E j \in 1..n-1 : C(j).by # C(j + 1).k) \/ (~anchor /\ me.by # me.k) THEN {"sig"} ELSE {})
      \cup (IF s.flags \cap {"crlall", "crldev"} # {} /\ n > 1
            THEN UNION {IF Lite \/ "lite" \in s.flags THEN RevokedLite(s, p[j], C(j + 1)) ELSE Revoked(s, p[j], C(j + 1), {}) : j \in IF "crlall" \in s.flags THEN 1..n-1 ELSE {1}}
            ELSE {})
TooDeep(s, p) == Len(p) > s.depth
Edge(s, p) == Len(p) = s.depth /\ p[1] \in Range(s.trust)        \* a leaf that is its own root may be counted twice
Verdicts(s, chain) ==
   LET P == Paths(s, chain)
       stuck == Stuck(s, chain, <<chain[1]>>)
       why == (IF stuck THEN {"issuer", "root", "depth"} ELSE {}) \cup UNION {Faults(s, p) : p \in P}
              \cup (IF \E p \in P : TooDeep(s, p) \/ Edge(s, p) THEN {"depth"} ELSE {})
   IN (IF \E p \in P : ~TooDeep(s, p) /\ Faults(s, p) = {} THEN {<<"ok">>} ELSE {}) \cup {<<"no", w>> : w \in why}

-----------------------------------------------------------------------------
FlagSets == CASE Aspect = "crl" -> {<<"crlall">>, <<"crldev">>, <<"crlall", "lite">>, <<"crldev", "lite">>, <<>>}
              [] Aspect = "delta" -> {<<"crldev", "delta">>, <<"crldev">>, <<"crldev", "delta", "lite">>}
              [] OTHER -> {<<>>, <<"partial">>, <<"notime">>}
Trusts == CASE Aspect = "path" -> {<<4>>, <<3>>, <<2>>, <<1>>, <<3, 4>>} [] OTHER -> {<<4>>}
Inputs(s) ==
   IF s.n >= Depth THEN {}
   ELSE {[op |-> "setup", trust |-> t, crls |-> [j \in DOMAIN s.c.crls |-> j], flags |-> f, purpose |-> p, depth |-> d, time |-> m, bits |-> b] :
           t \in Trusts, f \in FlagSets, p \in IF Aspect = "path" THEN {"", "server"} ELSE {""}, d \in IF Aspect = "path" THEN {20} ELSE {20},
           m \in IF Aspect = "path" THEN {-1, 15} ELSE {-1}, b \in {0}} \cup {[op |-> "verify", chain |-> <<1, 2, 3>>]}
Trustable(s, t) == SelectSeq(t, LAMBDA n : CanTrust(s.c.certs[n]))
Outcomes(s, i) ==
   CASE i.op = "setup" -> {[s |-> [s EXCEPT !.n = @ + 1, !.trust = Trustable(s, i.trust), !.crls = i.crls, !.flags = Range(i.flags) \cup (IF i.bits > 0 THEN {"bits"} ELSE {}), !.purpose = i.purpose, !.depth = i.depth, !.time = i.time,
                                    !.bits = i.bits], out |-> <<IF Trustable(s, i.trust) = i.trust THEN "done" ELSE "refused">>]}
     [] i.op = "verify" -> {[s |-> [s EXCEPT !.n = @ + 1], out |-> o] : o \in Verdicts(s, i.chain)}
     [] i.op = "trust" -> {IF CanTrust(s.c.certs[i.n]) THEN [s |-> [s EXCEPT !.trust = Append(@, i.n)], out |-> <<"done">>] ELSE [s |-> s, out |-> <<"refused">>]}
     [] i.op = "crl" -> {[s |-> [s EXCEPT !.crls = Append(@, i.n)], out |-> <<"done">>]}
     [] i.op = "clearcrl" -> {[s |-> [s EXCEPT !.crls = <<>>], out |-> <<"done">>]}
     [] i.op = "set" -> {[s |-> [s EXCEPT !.flags = @ \cup {i.f}], out |-> <<"done">>]}
     [] i.op = "clr" -> {[s |-> [s EXCEPT !.flags = @ \ {i.f}], out |-> <<"done">>]}
     [] i.op = "time" -> {[s |-> [s EXCEPT !.time = i.t], out |-> <<"done">>]}
     [] i.op = "depth" -> {[s |-> [s EXCEPT !.depth = i.d], out |-> <<"done">>]}
     [] i.op = "purpose" -> {[s |-> [s EXCEPT !.purpose = i.p], out |-> <<"done">>]}
     [] i.op = "bits" -> {[s |-> [s EXCEPT !.bits = i.b, !.flags = @ \cup {"bits"}], out |-> <<"done">>]}
     [] i.op = "dup" -> {[s |-> s, out |-> <<"done">>]}

(* nothing but a path of sound links to a trusted certificate makes a verification succeed *)
Inv(s) == TRUE
TransInv(s, i, o, t) ==
   i.op = "verify" /\ o = <<"ok">> =>
      \E p \in Paths(s, i.chain) : /\ p[Len(p)] \in Range(s.trust)
                                   /\ \A j \in 1..Len(p) - 1 : s.c.certs[p[j]].by = s.c.certs[p[j + 1]].k /\ s.c.certs[p[j + 1]].bc # "ee"
====
