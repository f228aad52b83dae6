------------------------------- MODULE Digest -------------------------------
(* Message digests, extendable-output functions and MACs: a context `a` and one made from it by dup/copy. *)
(* The value of a digest is an uninterpreted function of (key, everything fed since the last start); the  *)
(* observation carries whether the bytes are that value (computed by an independent implementation).      *)
EXTENDS Integers, Sequences

CONSTANTS Kinds, Sizes, MaxTot, Keys, SqSizes

Configs == {[kind |-> k] : k \in Kinds}
NoCtx == [st |-> "none"]
Fresh == [st |-> "new", tot |-> 0, sq |-> 0, key |-> 0]
InitState(c) == [kind |-> c.kind, a |-> Fresh, b |-> NoCtx]

Mac(s) == s.kind \in {"mac", "gmac", "cbcmac"}
R(s, i, c, o) == [s |-> [s EXCEPT ![i.c] = c], out |-> o]
Err(s) == {[s |-> s, out |-> <<"err">>]}

Init_(s, i) == {R(s, i, [Fresh EXCEPT !.st = "run", !.key = i.key], <<"ok">>)}
Reinit(s, i) ==
   LET c == s[i.c] IN
   IF ~Mac(s) \/ c.st = "new" \/ s.kind = "gmac" THEN Err(s)
   ELSE {R(s, i, [c EXCEPT !.st = "run", !.tot = 0], <<"ok">>)}
Deinit(s, i) == {R(s, i, Fresh, <<"ok">>)}
Update(s, i) ==
   LET c == s[i.c] IN
   IF c.st # "run" \/ (s.kind = "gmac" /\ c.tot > 0) THEN Err(s)    \* GMAC takes its message in one piece
   ELSE {R(s, i, [c EXCEPT !.tot = @ + i.n], <<"ok">>)}
Final(s, i) ==
   LET c == s[i.c] IN
   IF c.st # "run" \/ (i.room = "short" /\ s.kind # "xof") THEN Err(s)     \* an XOF yields as much as is asked for
   ELSE {R(s, i, [c EXCEPT !.st = "fin"], <<"ok", TRUE>>)}
Squeeze(s, i) ==
   LET c == s[i.c] IN
   IF s.kind # "xof" \/ c.st \notin {"run", "squeeze"} THEN Err(s)
   ELSE {R(s, i, [c EXCEPT !.st = "squeeze", !.sq = @ + i.n], <<"ok", TRUE>>)}
Dup(s, i) == {[s |-> [s EXCEPT !.b = s.a], out |-> <<"ok">>]}

Outcomes(s, i) ==
   CASE i.op = "init" -> Init_(s, i)
     [] i.op = "reinit" -> Reinit(s, i)
     [] i.op = "deinit" -> Deinit(s, i)
     [] i.op = "upd" -> Update(s, i)
     [] i.op = "fin" -> Final(s, i)
     [] i.op = "squeeze" -> Squeeze(s, i)
     [] i.op \in {"dup", "copy"} -> Dup(s, i)
     [] OTHER -> {}

Tot(x) == IF x.st = "none" THEN 0 ELSE x.tot
Inputs(s) ==
  UNION { LET x == s[c] IN
        {[op |-> "init", c |-> c, key |-> k] : k \in Keys}
        \cup {[op |-> "deinit", c |-> c], [op |-> "fin", c |-> c, room |-> "exact"], [op |-> "fin", c |-> c, room |-> "short"]}
        \cup (IF Mac(s) THEN {[op |-> "reinit", c |-> c]} ELSE {})
        \cup {[op |-> "upd", c |-> c, n |-> n] : n \in {z \in Sizes : Tot(x) + z <= MaxTot}}
        \cup (IF s.kind = "xof" /\ x.sq < 2 * MaxTot THEN {[op |-> "squeeze", c |-> c, n |-> n] : n \in SqSizes} ELSE {})
        : c \in {d \in {"a", "b"} : s[d].st # "none"} }
  \cup (IF s.b.st = "none" THEN {[op |-> "dup"]} ELSE {[op |-> "copy"]})

Inv(s) == /\ s.a.tot >= 0
          /\ s.a.st = "new" => s.a.tot = 0
TransInv(s, i, o, t) ==
   /\ (i.op \in {"upd", "fin"} /\ o[1] = "ok") => s[i.c].st = "run"
   /\ (i.op \notin {"dup", "copy"} /\ i.c = "a") => t.b = s.b
   /\ (i.op \notin {"dup", "copy"} /\ i.c = "b") => t.a = s.a
=============================================================================
