-------------------------------- MODULE Simp ---------------------------------
(***************************************************************************)
(* Multi-party programs: typing (where data may be placed), sequential     *)
(* meaning, the transfers the program spells out and the operations that   *)
(* each party executes.                                                    *)
(*                                                                         *)
(* A program has inputs [ps, vt] and a body: a sequence of statements over *)
(* numbered variables (inputs first, then the outputs of statements).      *)
(* Multi-party statements:                                                 *)
(*   pcall  ps, ins, body, res       local computation on the parties ps   *)
(*   pdyn   ins, body, res           local computation wherever inputs are *)
(*   shuf   src, rt                  rt: <<target, source>> pairs          *)
(*   conv   ins                      converge                              *)
(*   cond   pred, ins, th, el        th/el: [body, res, st]                *)
(*   while  init, caps, cb, bb       cb/bb: [body, res, st]                *)
(*   coll   name, ins, to, rt        the collective library                *)
(* Local statements (inside pcall): op, cond, while.                       *)
(* A multi-party value is a function from ranks to values, -1: none.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
P == 9973
None == -1
Dyn == {-1}
Range(s) == {s[k] : k \in 1 .. Len(s)}
Take(s, ix) == [k \in 1 .. Len(ix) |-> s[ix[k]]]
RECURSIVE SumW(_, _)
SumW(a, n) == IF n = 0 THEN 0 ELSE (n * 3 * a[n]) + SumW(a, n - 1)
Mix(o, j, a) == (o.uid * 131 + o.c * 29 + j * 17 + SumW(a, Len(a)) + 7) % P
OpVal(o, j, a) == IF o.f = "mix" THEN Mix(o, j, a)
                  ELSE IF o.f = "small" THEN Mix(o, j, a) % 3
                  ELSE IF o.f = "par" THEN Mix(o, j, a) % 2
                  ELSE IF o.f = "inc" THEN a[1] + 1
                  ELSE IF a[1] < o.c THEN 1 ELSE 0      \* "lt"
OpType(o) == IF o.f \in {"par", "lt"} THEN "b" ELSE "i"

(* ---------------------------------- typing -------------------------------- *)
\* a type is [ps |-> set of parties or Dyn, vt |-> value type]; local values have ps = {}
Bad == [ok |-> FALSE, t |-> <<>>]
Good(t) == [ok |-> TRUE, t |-> t]
Targets(rt) == {rt[k][1] : k \in 1 .. Len(rt)}
Sources(rt) == {rt[k][2] : k \in 1 .. Len(rt)}
Holds(ty, S) == ty.ps = Dyn \/ S \subseteq ty.ps
Single(ty) == ty.ps # Dyn /\ Cardinality(ty.ps) = 1
Only(ty) == CHOOSE p \in ty.ps : TRUE
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
RECURSIVE TypeBody(_, _, _), TypeRegion(_, _)
Local(ts) == [k \in 1 .. Len(ts) |-> [ps |-> {}, vt |-> ts[k].vt]]
TypeRegion(g, tenv) == LET b == TypeBody(g.body, tenv, 1) IN IF b.ok THEN Good(Take(b.t, g.res)) ELSE Bad
CollType(s, t) ==
  LET one == t[1] IN
  IF s.name = "transfer" THEN IF Single(one) THEN Good(<<[ps |-> {s.to[1]}, vt |-> one.vt]>>) ELSE Bad
  ELSE IF s.name = "replicate" THEN IF Single(one) /\ s.to # <<>> THEN Good(<<[ps |-> Range(s.to), vt |-> one.vt]>>) ELSE Bad
  ELSE IF s.name = "distribute"
       THEN IF t # <<>> /\ (\A k \in 1 .. Len(t) : t[k].ps = {s.to[1]} /\ t[k].vt = one.vt) THEN Good(<<[ps |-> 0 .. Len(t) - 1, vt |-> one.vt]>>) ELSE Bad
  ELSE IF s.name = "collect" THEN IF one.ps # Dyn THEN Good([k \in 1 .. Cardinality(one.ps) |-> [ps |-> {s.to[1]}, vt |-> one.vt]]) ELSE Bad
  ELSE IF s.name = "allreplicate" THEN IF one.ps # Dyn THEN Good([k \in 1 .. Cardinality(one.ps) |-> one]) ELSE Bad
  ELSE IF s.rt # <<>> /\ Holds(one, Sources(s.rt)) THEN Good(<<[ps |-> Targets(s.rt), vt |-> one.vt]>>) ELSE Bad   \* permute
StmtType(s, env) ==
  IF s.k = "op" THEN Good([j \in 1 .. s.nout |-> [ps |-> {}, vt |-> OpType(s)]])
  ELSE IF s.k \in {"pcall", "pdyn"}
  THEN LET ins == Take(env, s.ins)
           r == TypeRegion(s, Local(ins))
           ps == IF s.k = "pcall" THEN Range(s.ps) ELSE Dyn
       IN IF r.ok /\ (s.k = "pcall" => \A k \in 1 .. Len(ins) : Holds(ins[k], ps))
          THEN Good([k \in 1 .. Len(r.t) |-> [ps |-> ps, vt |-> r.t[k].vt]]) ELSE Bad
  ELSE IF s.k = "shuf" THEN IF s.rt # <<>> /\ Holds(env[s.src], Sources(s.rt)) THEN Good(<<[ps |-> Targets(s.rt), vt |-> env[s.src].vt]>>) ELSE Bad
  ELSE IF s.k = "conv"
  THEN LET t == Take(env, s.ins) IN
       IF /\ t # <<>> /\ \A k \in 1 .. Len(t) : t[k].vt = t[1].vt
          /\ (\E k \in 1 .. Len(t) : t[k].ps = Dyn) \/ (\A j, k \in 1 .. Len(t) : j < k => t[j].ps \cap t[k].ps = {})
       THEN Good(<<[ps |-> IF \E k \in 1 .. Len(t) : t[k].ps = Dyn THEN Dyn ELSE UNION {t[k].ps : k \in 1 .. Len(t)}, vt |-> t[1].vt]>>)
       ELSE Bad
  ELSE IF s.k = "cond"
  THEN LET a == TypeRegion(s.th, Take(env, s.ins))
           b == TypeRegion(s.el, Take(env, s.ins))
       IN IF a.ok /\ b.ok /\ a.t = b.t /\ s.th.st = s.el.st THEN a ELSE Bad
  ELSE IF s.k = "while"
  THEN LET st == Take(env, s.init)
           full == st \o Take(env, s.caps)
           c == TypeRegion(s.cb, full)
           b == TypeRegion(s.bb, full)
       IN IF c.ok /\ b.ok /\ Len(c.t) = 1 /\ b.t = st /\ st # <<>> THEN Good(st) ELSE Bad
  ELSE CollType(s, Take(env, s.ins))
TypeBody(body, env, i) ==
  IF i > Len(body) THEN Good(env)
  ELSE LET r == StmtType(body[i], env) IN IF r.ok THEN TypeBody(body, env \o r.t, i + 1) ELSE Bad

(* --------------------------------- meaning -------------------------------- *)
\* log: sequence of <<rank, operation>>; tr: sequence of <<source, target, value>>;
\* conds: the participant sets of the declared-uniform predicates that are compared; err: they disagree
Nothing == [vals |-> <<>>, log |-> <<>>, tr |-> <<>>, conds |-> {}, err |-> FALSE]
Join(a, b) == [vals |-> a.vals \o b.vals, log |-> a.log \o b.log, tr |-> a.tr \o b.tr, conds |-> a.conds \cup b.conds, err |-> a.err \/ b.err]
\* local bodies: one party r among the parties ps
RECURSIVE LBody(_, _, _, _, _), LStmt(_, _, _, _), LLoop(_, _, _, _, _), LRegion(_, _, _, _)
LRegion(g, env, r, ps) == LET b == LBody(g.body, env, 1, r, ps) IN [b EXCEPT !.vals = Take(env \o b.vals, g.res)]
LLoop(s, st, caps, r, ps) ==
  LET c == LRegion(s.cb, st \o caps, r, ps) IN
  IF c.vals[1] = 0 THEN [c EXCEPT !.vals = st]
  ELSE LET b == LRegion(s.bb, st \o caps, r, ps)
           n == LLoop(s, b.vals, caps, r, ps)
       IN [Join(Join([c EXCEPT !.vals = <<>>], [b EXCEPT !.vals = <<>>]), n) EXCEPT !.vals = n.vals]
LStmt(s, env, r, ps) ==
  IF s.k = "op" THEN [Nothing EXCEPT !.vals = [j \in 1 .. s.nout |-> OpVal(s, j - 1, Take(env, s.ins))], !.log = <<<<r, s.uid>>>>]
  ELSE IF s.k = "cond" THEN [LRegion(IF env[s.pred] # 0 THEN s.th ELSE s.el, Take(env, s.ins), r, ps) EXCEPT !.conds = @ \cup {ps}]
  ELSE LLoop(s, Take(env, s.init), Take(env, s.caps), r, ps)
LBody(body, env, i, r, ps) ==
  IF i > Len(body) THEN Nothing
  ELSE LET a == LStmt(body[i], env, r, ps) IN Join(a, LBody(body, env \o a.vals, i + 1, r, ps))

\* multi-party bodies; W: all ranks
NoVal(W) == [r \in W |-> None]
At(env, ix, r) == [k \in 1 .. Len(ix) |-> env[ix[k]][r]]
RECURSIVE Merge(_, _, _, _, _)
\* run a local region on every party of S (in turn; the order does not matter)
Merge(s, env, S, W, ps) ==
  IF S = {} THEN [Nothing EXCEPT !.vals = [k \in 1 .. Len(s.res) |-> NoVal(W)]]
  ELSE LET r == CHOOSE x \in S : TRUE
           a == LRegion(s, At(env, s.ins, r), r, ps)
           b == Merge(s, env, S \ {r}, W, ps)
       IN [Join([a EXCEPT !.vals = <<>>], [b EXCEPT !.vals = <<>>]) EXCEPT !.vals = [k \in 1 .. Len(s.res) |-> [b.vals[k] EXCEPT ![r] = a.vals[k]]]]
Src(rt, t) == (CHOOSE k \in 1 .. Len(rt) : rt[k][1] = t)
Routed(v, rt, W) == [r \in W |-> IF r \in Targets(rt) THEN v[rt[Src(rt, r)][2]] ELSE None]
MovesOf(v, rt) == LET e == SelectSeq(rt, LAMBDA x : x[1] # x[2] /\ v[x[2]] # None) IN [k \in 1 .. Len(e) |-> <<e[k][2], e[k][1], v[e[k][2]]>>]
Shuffle(v, rt, W) == [Nothing EXCEPT !.vals = <<Routed(v, rt, W)>>, !.tr = MovesOf(v, rt)]
Holders(v) == {r \in DOMAIN v : v[r] # None}
RECURSIVE Shuffles(_, _, _)
\* the same value sent along several routings: one result each
Shuffles(v, rts, W) == IF rts = <<>> THEN Nothing ELSE Join(Shuffle(v, rts[1], W), Shuffles(v, Tail(rts), W))
RECURSIVE FirstOf(_, _, _)
FirstOf(vs, r, k) == IF k > Len(vs) THEN None ELSE IF vs[k][r] # None THEN vs[k][r] ELSE FirstOf(vs, r, k + 1)
CollVal(s, vs, W) ==
  LET v == vs[1]
      hs == Asc(Holders(v))
      to == s.to
  IN IF s.name = "transfer" THEN Shuffle(v, <<<<to[1], hs[1]>>>>, W)
     ELSE IF s.name = "replicate" THEN Shuffle(v, [k \in 1 .. Cardinality(Range(to)) |-> <<Asc(Range(to))[k], hs[1]>>], W)
     ELSE IF s.name = "distribute"
     THEN [Nothing EXCEPT !.vals = <<[r \in W |-> IF r < Len(vs) THEN vs[r + 1][to[1]] ELSE None]>>,
                          !.tr = LET e == SelectSeq([k \in 1 .. Len(vs) |-> <<to[1], k - 1, vs[k][to[1]]>>], LAMBDA x : x[1] # x[2]) IN e]
     ELSE IF s.name = "collect" THEN Shuffles(v, [k \in 1 .. Len(hs) |-> <<<<to[1], hs[k]>>>>], W)
     ELSE IF s.name = "allreplicate" THEN Shuffles(v, [k \in 1 .. Len(hs) |-> [j \in 1 .. Len(hs) |-> <<hs[j], hs[k]>>]], W)
     ELSE Shuffle(v, s.rt, W)
RECURSIVE MBody(_, _, _, _, _), MStmt(_, _, _, _), MLoop(_, _, _, _, _), MRegion(_, _, _, _)
MRegion(g, env, W, A) == LET b == MBody(g.body, env, 1, W, A) IN [b EXCEPT !.vals = IF b.err THEN [k \in 1 .. Len(g.res) |-> NoVal(W)] ELSE Take(env \o b.vals, g.res)]
\* every party leaves the loop when its condition does not hold (at once if it holds no condition)
MLoop(s, st, caps, W, A) ==
  LET c == MRegion(s.cb, st \o caps, W, A)
      H == {r \in A : c.vals[1][r] # None}
      T == {r \in H : c.vals[1][r] # 0}
  IN IF c.err \/ T = {} THEN [c EXCEPT !.vals = st]
     ELSE LET b == MRegion(s.bb, st \o caps, W, T)
              n == IF b.err THEN [Nothing EXCEPT !.vals = st] ELSE MLoop(s, [k \in 1 .. Len(st) |-> [r \in W |-> IF r \in T THEN b.vals[k][r] ELSE st[k][r]]], caps, W, T)
          IN [Join(Join([c EXCEPT !.vals = <<>>], [b EXCEPT !.vals = <<>>]), n) EXCEPT !.vals = n.vals]
MStmt(s, env, W, A) ==
  IF s.k = "pcall" THEN Merge(s, env, Range(s.ps) \cap A, W, Range(s.ps))
  ELSE IF s.k = "pdyn" THEN Merge(s, env, {r \in A : \A k \in 1 .. Len(s.ins) : env[s.ins[k]][r] # None}, W, W)
  ELSE IF s.k = "shuf" THEN Shuffle(env[s.src], s.rt, W)
  ELSE IF s.k = "conv" THEN [Nothing EXCEPT !.vals = <<[r \in W |-> FirstOf(Take(env, s.ins), r, 1)]>>]
  ELSE IF s.k = "cond"
  THEN LET truths == {env[s.pred][r] \notin {0, None} : r \in W}
       IN IF truths = {TRUE, FALSE} THEN [Nothing EXCEPT !.conds = {W}, !.err = TRUE, !.vals = [k \in 1 .. Len(s.th.res) |-> NoVal(W)]]
          ELSE [MRegion(IF truths = {TRUE} THEN s.th ELSE s.el, Take(env, s.ins), W, A) EXCEPT !.conds = @ \cup {W}]
  ELSE IF s.k = "while" THEN MLoop(s, Take(env, s.init), Take(env, s.caps), W, A)
  ELSE CollVal(s, Take(env, s.ins), W)
MBody(body, env, i, W, A) ==
  IF i > Len(body) THEN Nothing
  ELSE LET a == MStmt(body[i], env, W, A) IN IF a.err THEN a ELSE Join(a, MBody(body, env \o a.vals, i + 1, W, A))
Meaning(prog, inputs, W) == MRegion(prog, inputs, W, W)
Typing(prog, types) == TypeRegion(prog, types)

(* ------------------------------- comparisons ------------------------------ *)
Count(s, x) == Cardinality({i \in 1 .. Len(s) : s[i] = x})
SubBag(s, t) == \A i \in 1 .. Len(s) : Count(s, s[i]) <= Count(t, s[i])
SameBag(s, t) == Len(s) = Len(t) /\ SubBag(s, t)
=============================================================================
