------------------------------- MODULE Cipher -------------------------------
(* The symmetric-cipher context of the EAL: a context `a` and a copy `b` made by DupCtx.             *)
(* Bytes are abstracted to lengths; whether the bytes produced by a step are the bytes that the       *)
(* reference function Enc/Dec(key, iv, aad, everything fed so far) yields at that position is the     *)
(* boolean `good` of the observation (computed by an independent implementation), and the             *)
(* specification demands TRUE.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Kinds,     \* kinds of cipher explored
          Sizes,     \* lengths fed to one update
          MaxTot,    \* bound on the bytes fed to one message
          Aads,      \* lengths of additional data
          Keys, Ivs, Dups

BS == 16
Pads == {"none", "pkcs7", "x923", "iso7816", "zeros"}
Tails == {"p1", "p7", "pfull", "bad"}

Configs == {[kind |-> k] : k \in Kinds}
NoCtx == [st |-> "none"]
Fresh == [st |-> "new", enc |-> TRUE, pad |-> "none", tot |-> 0, emit |-> 0, aad |-> -1, tl |-> 16, vt |-> "none",
          ml |-> -1, tail |-> "none", key |-> 0, iv |-> 0]
InitState(c) == [kind |-> c.kind, a |-> Fresh, b |-> NoCtx]

Aead(s) == s.kind \in {"gcm", "ccm", "poly"}
R(s, i, c, o) == [s |-> [s EXCEPT ![i.c] = c], out |-> o]
Err(s) == {[s |-> s, out |-> <<"err">>]}
Ok(s, i, c) == {R(s, i, c, <<"ok">>)}

\* ---- actions ---------------------------------------------------------------------------------------
Init_(s, i) ==
   Ok(s, i, [Fresh EXCEPT !.st = "init", !.enc = i.enc, !.key = i.key, !.iv = i.iv])

BadInit(s, i) ==       \* a key of the wrong length: refused, and the context is not usable
   {R(s, i, Fresh, <<"err">>)}

Reinit(s, i) ==
   LET c == s[i.c] IN
   IF c.st = "new" THEN Err(s)
   ELSE Ok(s, i, [c EXCEPT !.st = "init", !.tot = 0, !.emit = 0, !.aad = -1, !.vt = "none", !.tail = "none", !.iv = i.iv, !.ml = -1, !.pad = "none"])

Deinit(s, i) == Ok(s, i, Fresh)

SetPad(s, i) ==
   LET c == s[i.c] IN
   IF s.kind = "block" THEN Ok(s, i, [c EXCEPT !.pad = i.pad]) ELSE Err(s)

\* a tag set as `good` is the tag of everything fed so far: feeding more makes it a wrong one
Stale(c, n) == IF c.vt = "good" /\ n > 0 THEN "bad" ELSE c.vt
EffMl(c) == IF c.ml < 0 THEN 0 ELSE c.ml

Aad(s, i) ==
   LET c == s[i.c] IN
   IF c.st # "init" \/ ~Aead(s) THEN Err(s)
   ELSE Ok(s, i, [c EXCEPT !.st = "upd", !.aad = i.n, !.vt = Stale(c, i.n)])

MsgLen(s, i) ==
   LET c == s[i.c] IN
   IF s.kind # "ccm" \/ c.st # "init" THEN Err(s) ELSE Ok(s, i, [c EXCEPT !.ml = i.n, !.vt = IF @ = "good" /\ i.n # EffMl(c) THEN "bad" ELSE @])

ValidTagLen(s, n) == CASE s.kind = "gcm" -> n \in {4, 8} \cup 12..16
                       [] s.kind = "ccm" -> n \in {4, 6, 8, 10, 12, 14, 16}
                       [] OTHER -> FALSE
TagLen(s, i) ==
   LET c == s[i.c] IN
   IF c.st # "init" \/ ~ValidTagLen(s, i.n) THEN Err(s) ELSE Ok(s, i, [c EXCEPT !.tl = i.n, !.vt = IF @ = "good" /\ i.n # c.tl THEN "bad" ELSE @])

\* a block decrypted with padding is held back until it is known not to be the last one
Held(c, t) == IF c.enc \/ c.pad = "none" THEN t % BS
              ELSE IF t = 0 THEN 0 ELSE ((t - 1) % BS) + 1

Dead(c) == [c EXCEPT !.st = "dead"]
Update(s, i) ==
   LET c == s[i.c]
       t == c.tot + i.n
       e == CASE s.kind = "block" -> t - Held(c, t) - c.emit
              [] OTHER -> i.n
       c2 == [c EXCEPT !.st = "upd", !.tot = t, !.emit = @ + e, !.tail = IF (t + BS - 1) \div BS > (c.tot + BS - 1) \div BS THEN i.tail ELSE @, !.vt = Stale(c, i.n)]
   IN IF c.st \notin {"init", "upd"} THEN Err(s)
      ELSE IF s.kind = "ccm" /\ t > EffMl(c) THEN Err(s)
      ELSE IF s.kind = "xts" /\ i.n \in 1..(BS - 1) THEN Err(s)         \* XTS: whole blocks; only the last update may
      ELSE IF s.kind = "xts" /\ i.n % BS # 0 THEN {R(s, i, Dead(c2), <<"ok", i.n, TRUE>>)}  \* have a partial block
      ELSE {R(s, i, c2, <<"ok", e, TRUE>>)}

TailLen(t) == CASE t = "p1" -> 1 [] t = "p7" -> 7 [] t = "pfull" -> BS [] OTHER -> 0

Final(s, i) ==
   LET c == s[i.c]
       f == [c EXCEPT !.st = "fin"]
       rest == c.tot - c.emit
   IN IF c.st \notin {"init", "upd"} THEN Err(s)
      ELSE CASE s.kind = "block" /\ c.enc ->
                  IF c.pad = "none"
                  THEN IF rest = 0 THEN {R(s, i, f, <<"ok", 0, TRUE>>)} ELSE {R(s, i, Dead(c), <<"err">>)}
                  ELSE {R(s, i, f, <<"ok", BS, TRUE>>)}
             [] s.kind = "block" /\ ~c.enc ->
                  IF c.tot % BS # 0 THEN {R(s, i, Dead(c), <<"err">>)}
                  ELSE IF c.tot = 0 \/ c.pad = "none" THEN {R(s, i, f, <<"ok", 0, TRUE>>)}
                  ELSE IF c.pad = "zeros" THEN {R(s, i, f, <<"ok", BS, TRUE>>)}
                  ELSE IF c.tail = "bad" THEN {R(s, i, Dead(c), <<"err">>)}
                  ELSE {R(s, i, f, <<"ok", BS - TailLen(c.tail), TRUE>>)}
             [] s.kind \in {"stream", "xts"} -> {R(s, i, f, <<"ok", 0, TRUE>>)}
             [] OTHER ->   \* AEAD
                  IF s.kind = "ccm" /\ c.tot # EffMl(c)
                  THEN Err(s) \cup (IF c.enc THEN {R(s, i, Dead(c), <<"ok", 0, TRUE>>)} ELSE {})
                  ELSE IF c.enc \/ c.vt = "good" THEN {R(s, i, f, <<"ok", 0, TRUE>>)}
                  ELSE Err(s)

SetTag(s, i) ==
   LET c == s[i.c] IN
   IF ~Aead(s) \/ c.st \notin {"init", "upd"} \/ c.enc THEN Err(s)
   ELSE Ok(s, i, [c EXCEPT !.vt = IF s.kind = "ccm" /\ c.tot # EffMl(c) THEN "bad" ELSE i.v])

GetTag(s, i) ==
   LET c == s[i.c] IN
   IF ~Aead(s) \/ c.st = "new" \/ i.n # c.tl THEN Err(s)
   ELSE IF s.kind = "ccm" /\ c.tot # EffMl(c) THEN Err(s)
   ELSE Ok(s, i, c)      \* <<"ok">> is reported by the driver only when the bytes are the right tag

Dup(s, i) == {[s |-> [s EXCEPT !.b = s.a], out |-> <<"ok">>]}

\* after a message was given up because its padding or length is wrong, only a new start is specified
AnyDead(s, i) == {[s |-> s, out |-> <<"err">>], [s |-> s, out |-> <<"ok">>], [s |-> s, out |-> <<"ok", "WRONG-TAG">>]}
                 \cup {[s |-> s, out |-> <<"ok", n, g>>] : n \in 0..((IF i.op = "upd" THEN i.n ELSE 0) + 2 * BS), g \in BOOLEAN}

Outcomes(s, i) ==
   CASE i.op \notin {"init", "badinit", "reinit", "deinit", "dup"} /\ s[i.c].st = "dead" -> AnyDead(s, i)
     [] i.op = "init"   -> Init_(s, i)
     [] i.op = "badinit" -> BadInit(s, i)
     [] i.op = "reinit" -> Reinit(s, i)
     [] i.op = "deinit" -> Deinit(s, i)
     [] i.op = "pad"    -> SetPad(s, i)
     [] i.op = "aad"    -> Aad(s, i)
     [] i.op = "msglen" -> MsgLen(s, i)
     [] i.op = "taglen" -> TagLen(s, i)
     [] i.op = "upd"    -> Update(s, i)
     [] i.op = "fin"    -> Final(s, i)
     [] i.op = "settag" -> SetTag(s, i)
     [] i.op = "gettag" -> GetTag(s, i)
     [] i.op = "dup"    -> Dup(s, i)
     [] OTHER -> {}

Live(s) == {c \in {"a", "b"} : s[c].st # "none"}

Inputs(s) ==
  UNION { LET x == s[c]
              usable == x.st # "dead"
          IN {[op |-> "init", c |-> c, enc |-> e, key |-> k, iv |-> v] : e \in BOOLEAN, k \in Keys, v \in Ivs}
        \cup {[op |-> "badinit", c |-> c]}
        \cup {[op |-> "reinit", c |-> c, iv |-> v] : v \in Ivs}
        \cup {[op |-> "deinit", c |-> c]}
        \cup (IF s.kind = "block" /\ x.st = "init" THEN {[op |-> "pad", c |-> c, pad |-> p] : p \in Pads} ELSE {})
        \cup (IF usable /\ s.kind \in {"gcm", "poly", "ccm"} THEN {[op |-> "aad", c |-> c, n |-> n] : n \in Aads} ELSE {})
        \cup (IF usable /\ s.kind = "ccm" THEN {[op |-> "msglen", c |-> c, n |-> n] : n \in {0, MaxTot}} ELSE {})
        \cup (IF usable /\ s.kind \in {"gcm", "ccm"} THEN {[op |-> "taglen", c |-> c, n |-> n] : n \in {3, 4, 12}} ELSE {})
        \cup (IF usable THEN {[op |-> "upd", c |-> c, n |-> n, tail |-> tl] : n \in {z \in Sizes : (IF x.st = "new" THEN 0 ELSE x.tot) + z <= MaxTot},
                                    tl \in IF s.kind = "block" /\ ~x.enc /\ x.pad # "none" THEN Tails ELSE {"p1"}} ELSE {})
        \cup (IF usable THEN {[op |-> "fin", c |-> c]} ELSE {})
        \cup (IF usable /\ Aead(s) THEN {[op |-> "settag", c |-> c, v |-> v] : v \in {"good", "bad"}} ELSE {})
        \cup (IF usable /\ Aead(s) THEN {[op |-> "gettag", c |-> c, n |-> n] : n \in {4, 12, 16}} ELSE {})
        : c \in Live(s) }
  \cup (IF Dups /\ s.a.st \notin {"none", "dead"} /\ s.b.st = "none" THEN {[op |-> "dup"]} ELSE {})

\* ---- properties ------------------------------------------------------------------------------------
CtxOK(c) == c.st = "none" \/
   /\ c.emit <= c.tot
   /\ (c.st \in {"new"}) => (c.tot = 0 /\ c.vt = "none")
Inv(s) == CtxOK(s.a) /\ CtxOK(s.b)

\* authenticated decryption succeeds only with the right tag; nothing is processed out of state;
\* an operation on one context never touches the other one
TransInv(s, i, o, t) ==
   /\ (i.op = "fin" /\ o[1] = "ok" /\ Aead(s) /\ ~s[i.c].enc /\ s[i.c].st # "dead") => s[i.c].vt = "good"
   /\ (i.op \in {"upd", "fin"} /\ o[1] = "ok") => s[i.c].st \in {"init", "upd", "dead"}
   /\ (i.op # "dup" /\ i.c = "a") => t.b = s.b
   /\ (i.op # "dup" /\ i.c = "b") => t.a = s.a
=============================================================================
