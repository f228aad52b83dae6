------------------------------- MODULE Xmss -------------------------------
(* Stateful hash-based signing keys (XMSS and XMSS^MT of RFC 8391) as the owner of a key sees them: two key contexts and one     *)
(* exported private key. Indices are counted from the one the key starts with; c.room is how many signatures are left there.    *)
(* The driver judges the bytes of every signature with an independent implementation: "good" means that it verifies under the    *)
(* key's root and that index, randomizer and lowest one-time signature are those of the expected index and message.              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Depth, Cfgs

Configs == Cfgs
(* a context: what it holds (nothing, a public key, a private key), next index, whether it carries the traversal state *)
Key(has, idx, bds) == [has |-> has, idx |-> idx, bds |-> bds]
InitState(c) == [c |-> c, k |-> <<Key("prv", 0, c.bds), Key("none", 0, FALSE)>>, blob |-> <<>>, n |-> 0]

Ctx == {1, 2}
Buf == {"exact", "large", "short", "none"}
Tamper == {"no", "ahead", "behind", "cutbds", "longbds", "otherroot", "otheralg", "garbage", "shortseed", "noseed", "shortidx"}
NeedsBds == {"ahead", "behind", "cutbds", "longbds", "otherroot", "otheralg", "garbage"}
Inputs(s) ==
   IF s.n >= Depth THEN {}
   ELSE {[op |-> "sign", k |-> k, len |-> 40, buf |-> b] : k \in Ctx, b \in Buf}
        \cup {[op |-> "many", k |-> k, len |-> 5] : k \in Ctx}
        \cup {[op |-> "fault", k |-> k, at |-> a] : k \in Ctx, a \in {1, 3}}
        \cup {[op |-> "export", k |-> k, bds |-> b, room |-> r] : k \in Ctx, b \in BOOLEAN, r \in {"exact", "short"}}
        \cup {[op |-> "import", k |-> k, bds |-> b, bad |-> t] : k \in Ctx, b \in BOOLEAN, t \in Tamper}
        \cup {[op |-> "dup", k |-> 2]}
        \cup {[op |-> "pub", k |-> 2], [op |-> "pair", k |-> 2], [op |-> "index", k |-> 1]}
        \cup {[op |-> "forge", k |-> k, how |-> h] : k \in Ctx, h \in {"index", "random", "ots", "auth", "short", "long", "message", "swap"}}

---------------------------------------------------------------------------
Left(s, k) == s.k[k].idx < s.c.room
CanSign(s, k) == s.k[k].has = "prv" /\ Left(s, k)
(* result, how many signatures, offset of the first index, all good, buffer as it should be *)
No(s, why) == [s |-> s, out |-> <<"no", 0, 0, TRUE, why>>]
Signed(s, k, n) == [s |-> [s EXCEPT !.k[k].idx = @ + n], out |-> <<"yes", n, s.k[k].idx, TRUE, "full">>]
(* the exported key in the slot, fit for this use *)
Blob(s) == s.blob[1]
Importable(s, i) == s.blob # <<>> /\ (i.bds => Blob(s).bds) /\ (i.bad \in NeedsBds => i.bds) /\ (i.bad = "behind" => Blob(s).idx > 0 \/ s.c.start > 0)
Plain(s, r) == [s |-> s, out |-> <<r>>]
Step(s, i) ==
   CASE i.op = "sign" ->
          IF s.k[i.k].has = "none" \/ i.buf = "none" \/ i.buf = "short" \/ ~CanSign(s, i.k) THEN {No(s, "same")} ELSE {Signed(s, i.k, 1)}
     [] i.op = "many" ->
          LET m == IF s.k[i.k].has # "prv" \/ ~Left(s, i.k) THEN 0 ELSE IF s.c.room - s.k[i.k].idx < i.len THEN s.c.room - s.k[i.k].idx ELSE i.len IN
          {[s |-> [s EXCEPT !.k[i.k].idx = @ + m], out |-> <<"yes", m, IF m = 0 THEN 0 ELSE s.k[i.k].idx, TRUE, "full">>]}
     [] i.op = "fault" ->      (* memory runs out at some point of signing: nothing signed stays in the buffer, and what was begun is used up *)
          IF s.k[i.k].has # "prv" \/ ~Left(s, i.k) THEN {No(s, "same")}
          ELSE {Signed(s, i.k, 1), No(s, "same")} \cup {No([s EXCEPT !.k[i.k].idx = @ + 1, !.k[i.k].bds = b], "wiped") : b \in {FALSE, s.k[i.k].bds}}
     [] i.op = "export" ->
          IF s.k[i.k].has # "prv" THEN {}
          ELSE IF i.bds /\ s.k[i.k].bds /\ i.room = "short" THEN {[s |-> s, out |-> <<"no", 0, FALSE>>]}
          ELSE LET b == i.bds /\ s.k[i.k].bds IN {[s |-> [s EXCEPT !.blob = <<[idx |-> s.k[i.k].idx, bds |-> b]>>], out |-> <<"yes", s.k[i.k].idx, b>>]}
     [] i.op = "import" ->
          IF ~Importable(s, i) THEN {}
          ELSE IF i.bad # "no" THEN {Plain(s, "no")}
          ELSE {Plain([s EXCEPT !.k[i.k] = Key("prv", Blob(s).idx, i.bds)], "yes")}
     [] i.op = "dup" -> {Plain([s EXCEPT !.k[2] = Key("pub", 0, FALSE)], "yes")}      (* a copy of context 1 does not get the private key *)
     [] i.op = "pub" -> IF s.k[2].has = "none" THEN {Plain([s EXCEPT !.k[2] = Key("pub", 0, FALSE)], "yes")} ELSE {}
     [] i.op = "pair" -> IF s.k[2].has = "none" THEN {} ELSE {Plain(s, "yes")}
     [] i.op = "index" -> {[s |-> s, out |-> <<"index", s.k[1].idx>>]}
     [] i.op = "forge" -> IF s.k[i.k].has = "none" THEN {} ELSE {Plain(s, "no")}
Outcomes(s, i) == {[o EXCEPT !.s.n = @ + 1] : o \in Step(s, i)}

---------------------------------------------------------------------------
Inv(s) == \A k \in Ctx : s.k[k].idx <= s.c.room /\ (s.k[k].bds => s.k[k].has = "prv")
(* an index appears in at most one signature: it is used up by the very step that hands out the signature, whatever else happens; *)
(* only importing an older exported key can bring an index back                                                                   *)
TransInv(s, i, o, t) ==
   /\ (i.op \in {"sign", "many", "fault"} /\ o[1] = "yes" /\ o[2] > 0) =>
         (o[3] = s.k[i.k].idx /\ t.k[i.k].idx = s.k[i.k].idx + o[2] /\ s.k[i.k].has = "prv")
   /\ (i.op # "import" => \A k \in Ctx : (s.k[k].has = "prv" /\ t.k[k].has = "prv") => t.k[k].idx >= s.k[k].idx)
   /\ (i.op \notin {"import"} => \A k \in Ctx : t.k[k].has = "prv" => s.k[k].has = "prv")
===========================================================================
