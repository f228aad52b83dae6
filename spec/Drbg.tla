------------------------------- MODULE Drbg -------------------------------
(* A deterministic random bit generator of SP 800-90A / GM/T 0105 behind the EAL interface: when it takes entropy and how      *)
(* much, when it refuses, what a failure of the entropy source does. The bytes themselves are judged by the driver, which      *)
(* follows the calls of the entropy source with an independent implementation of the mechanisms.                               *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Aspect, Depth, Algs

(* an algorithm: strength in bits, least entropy and nonce, most (0: no limit but the general one), bytes per request, default  *)
(* number of requests and seconds between seedings                                                                             *)
Cfg(a, nc, api) == [alg |-> a, nonce |-> nc, api |-> api]
Configs == {Cfg(a, nc, api) : a \in Algs, nc \in BOOLEAN, api \in (IF Aspect = "rand" THEN {"rand"} ELSE {"drbg", "prov"})}
InitState(c) == [c |-> c, st |-> "new", work |-> FALSE, ctr |-> 0, iv |-> c.alg.iv, tv |-> c.alg.tv, pr |-> FALSE, now |-> 0, last |-> 0, live |-> (c.api # "rand"), n |-> 0]

Ent == {<<>>, <<"more">>, <<"less">>, <<"fail">>, <<"ok", "fail">>, <<"ok", "less">>, <<"ok", "ok", "fail">>}
Inputs(s) ==
   IF s.n >= Depth THEN {}
   ELSE {[op |-> "inst", pers |-> p, ent |-> e] : p \in {0, 5}, e \in Ent}
        \cup {[op |-> "gen", len |-> l, ad |-> a, ent |-> e] : l \in {1, 40}, a \in {0, 9}, e \in Ent}
        \cup {[op |-> "seed", ad |-> a, ent |-> e] : a \in {0, 9}, e \in Ent}
        \cup {[op |-> "fork", len |-> 20, ad |-> 0, ent |-> e] : e \in {<<>>, <<"fail">>}}
        \cup {[op |-> "interval", v |-> v] : v \in {0, 1, 2}}
        \cup {[op |-> "pr", v |-> v] : v \in BOOLEAN}
        \cup (IF s.c.alg.tv > 0 THEN {[op |-> "tick", d |-> d] : d \in {s.c.alg.tv, s.c.alg.tv + 1}} \cup {[op |-> "time", v |-> 5], [op |-> "level", v |-> 1], [op |-> "level", v |-> 2]} ELSE {})
        \cup {[op |-> "zero"], [op |-> "status"]}
        \cup (IF s.c.api = "rand" THEN {[op |-> "deinit"]} ELSE {})

---------------------------------------------------------------------------
(* one call of the entropy source: what is asked for, and whether the answer is one the generator may use *)
Kind(e, k) == IF k <= Len(e) THEN e[k] ELSE "ok"
Usable(a, what, k) == k = "ok" \/ (k = "more" /\ (a.max = 0 \/ what = "N"))
HasNonce(c) == c.nonce /\ c.alg.nmin > 0
AskN(c) == <<"N", c.alg.nmin, c.alg.str>>
AskE(c) == <<"E", c.alg.emin, c.alg.str>>
AskEN(c) == IF c.alg.nmin > 0 /\ ~c.nonce THEN <<"E", c.alg.emin + c.alg.nmin, c.alg.str + c.alg.str \div 2>> ELSE AskE(c)

(* a run: [s, ok, asked, k]: state, still going, what was asked, answers used *)
Run0(s, e) == [s |-> s, ok |-> TRUE, q |-> <<>>, k |-> 0, e |-> e]
Ask(r, what, form) ==
   IF ~r.ok THEN r
   ELSE LET u == Usable(r.s.c.alg, what, Kind(r.e, r.k + 1)) IN [r EXCEPT !.q = Append(@, form), !.k = @ + 1, !.ok = u]
Fail(r) == IF r.ok THEN r ELSE [r EXCEPT !.s.st = "error"]
Instantiate(r) ==
   IF ~r.ok THEN r
   ELSE LET a == IF HasNonce(r.s.c) THEN Ask(r, "N", AskN(r.s.c)) ELSE r
            b == Ask(a, "E", AskEN(r.s.c))
        IN IF b.ok THEN [b EXCEPT !.s.st = "ready", !.s.ctr = 1, !.s.last = b.s.now] ELSE Fail(b)
Restart(r) == IF r.s.st = "ready" THEN r ELSE Instantiate(r)
Reseed(r) ==
   LET a == Restart(r)  b == Ask(a, "E", AskE(r.s.c)) IN
   IF b.ok THEN [b EXCEPT !.s.ctr = 1, !.s.last = b.s.now] ELSE Fail(b)
Due(s, forked) == forked \/ s.pr \/ s.ctr > s.iv \/ (s.tv > 0 /\ s.now - s.last > s.tv)
RECURSIVE Blocks(_, _, _)
Blocks(r, left, forked) ==
   IF left <= 0 \/ ~r.ok THEN r
   ELSE LET a == Restart(r)
            b == IF a.ok /\ Due(a.s, forked) THEN Reseed(a) ELSE a
            c == IF b.ok THEN [b EXCEPT !.s.ctr = @ + 1] ELSE b
        IN Blocks(c, left - r.s.c.alg.req, FALSE)
Long(s, n) == s.c.alg.max > 0 /\ n > s.c.alg.max

Refuse(s) == {[s |-> s, out |-> <<"no", <<>>, TRUE, TRUE>>]}
(* answer, what was asked, everything got was given back, the bytes are the right ones *)
Result(r, s) == {[s |-> r.s, out |-> <<IF r.ok THEN "yes" ELSE "no", r.q, TRUE, TRUE>>]}
Step(s, i) ==
   CASE i.op = "inst" ->
          IF s.c.api = "rand"
          THEN IF s.live \/ Long(s, i.pers) THEN Refuse(s)
               ELSE LET f == [InitState(s.c) EXCEPT !.now = s.now, !.n = s.n]  r == Instantiate(Run0(f, i.ent)) IN
                    IF r.ok THEN Result([r EXCEPT !.s.work = TRUE, !.s.live = TRUE], s) ELSE {[s |-> s, out |-> <<"no", r.q, TRUE, TRUE>>]}
          ELSE IF s.st # "new" \/ Long(s, i.pers) THEN Refuse(s)
               ELSE LET r == Instantiate(Run0(s, i.ent)) IN Result([r EXCEPT !.s.work = r.ok], s)
     [] i.op \in {"gen", "fork"} ->
          IF ~s.work \/ i.len = 0 \/ Long(s, i.ad) THEN Refuse(s)
          ELSE LET r == Blocks(Run0(s, i.ent), i.len, i.op = "fork") IN
               IF i.op = "fork" THEN {[s |-> s, out |-> <<IF r.ok THEN "yes" ELSE "no", r.q, TRUE, TRUE>>]} ELSE Result(r, s)
     [] i.op = "seed" ->
          IF ~s.work \/ Long(s, i.ad) THEN Refuse(s) ELSE Result(Reseed(Run0(s, i.ent)), s)
     [] i.op = "many" ->      (* i.len one-byte requests one after the other: how often is fresh entropy taken? *)
          IF ~s.work \/ s.st # "ready" \/ s.pr THEN {}
          ELSE LET first == s.iv + 1 - s.ctr               (* requests before the first seeding *)
                   m == IF i.len <= first THEN 0 ELSE 1 + (i.len - first - 1) \div s.iv
               IN {[s |-> [s EXCEPT !.ctr = IF m = 0 THEN @ + i.len ELSE 1 + (i.len - first - (m - 1) * s.iv), !.last = IF m = 0 THEN @ ELSE s.now],
                    out |-> <<"many", m, TRUE>>]}
     [] i.op = "threads" ->   (* requests of several threads at once are served one after the other *)
          IF ~s.work \/ s.st # "ready" \/ s.pr \/ s.ctr + i.len > s.iv THEN {} ELSE {[s |-> [s EXCEPT !.ctr = @ + i.len], out |-> <<"threads", TRUE>>]}
     [] i.op \in {"interval", "pr", "time", "level"} ->
          IF ~s.live THEN {} ELSE
          IF s.work THEN {[s |-> s, out |-> <<"set", FALSE>>]}
          ELSE {[s |-> (CASE i.op = "interval" -> [s EXCEPT !.iv = i.v] [] i.op = "pr" -> [s EXCEPT !.pr = i.v] [] i.op = "time" -> [s EXCEPT !.tv = i.v]
                          [] OTHER -> [s EXCEPT !.iv = IF i.v = 1 THEN 1048576 ELSE 1024, !.tv = IF i.v = 1 THEN 600 ELSE 60]), out |-> <<"set", TRUE>>]}
     [] i.op = "tick" -> {[s |-> [s EXCEPT !.now = @ + i.d], out |-> <<"ok">>]}
     [] i.op = "zero" -> Refuse(s)          (* a request for nothing, additional input without a buffer *)
     [] i.op = "status" -> IF ~s.live THEN {} ELSE {[s |-> s, out |-> <<"status", s.work>>]}
     [] i.op = "deinit" -> {[s |-> [s EXCEPT !.st = "new", !.work = FALSE, !.live = FALSE, !.ctr = 0, !.last = 0], out |-> <<"ok">>]}
Outcomes(s, i) == {[s |-> [o.s EXCEPT !.n = s.n + 1], out |-> o.out] : o \in Step(s, i)}

---------------------------------------------------------------------------
Inv(s) == (s.st = "ready" => s.ctr >= 1) /\ (s.st = "ready" /\ s.iv > 0 /\ ~s.pr => s.ctr <= s.iv + 1)
Got(o) == Len(o[2])
TransInv(s, i, o, t) ==
   (* bytes come only out of a generator that was seeded and whose seed is fresh enough *)
   /\ (i.op \in {"gen", "fork"} /\ o[1] = "yes" => s.work /\ (i.op = "gen" => t.st = "ready"))
   /\ (i.op \in {"gen", "fork"} /\ o[1] = "yes" /\ (s.st # "ready" \/ s.pr \/ s.ctr > s.iv \/ i.op = "fork") => Got(o) > 0)
   /\ (i.op = "gen" /\ o[1] = "yes" /\ t.iv > 0 => t.ctr <= t.iv + 1)
   (* after the source failed nothing comes out before it works again *)
   /\ (s.st = "error" /\ i.op = "gen" /\ o[1] = "yes" => Got(o) > 0)
   /\ (i.op = "seed" /\ o[1] = "yes" => t.ctr = 1)
=============================================================================
