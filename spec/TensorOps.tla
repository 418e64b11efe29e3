------------------------------ MODULE TensorOps -------------------------------
(***************************************************************************)
(* Meaning of the structural tensor operations and of straight-line        *)
(* tensor programs.  A tensor is [s |-> shape, d |-> row-major data].      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Strides(s) == [i \in 1 .. Len(s) |-> Prod(SubSeq(s, i + 1, Len(s)))]
Unravel(s, k) == [i \in 1 .. Len(s) |-> (k \div Strides(s)[i]) % s[i]]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Ravel(s, ix) == SumTo([i \in 1 .. Len(s) |-> ix[i] * Strides(s)[i]], Len(s))
At(t, ix) == t.d[Ravel(t.s, ix) + 1]
\* tensor of shape s whose element at index ix is F(ix)
Build(s, F(_)) == [s |-> s, d |-> [k \in 1 .. Prod(s) |-> F(Unravel(s, k - 1))]]
Transpose(t, perm) ==
  LET s == [i \in 1 .. Len(perm) |-> t.s[perm[i] + 1]]
      Src(ix) == [j \in 1 .. Len(perm) |-> ix[CHOOSE i \in 1 .. Len(perm) : perm[i] + 1 = j]]
  IN Build(s, LAMBDA ix : At(t, Src(ix)))
Reshape(t, sh) ==
  LET known == Prod(SelectSeq(sh, LAMBDA d : d # -1))
  IN [s |-> [i \in 1 .. Len(sh) |-> IF sh[i] = -1 THEN Prod(t.s) \div known ELSE sh[i]], d |-> t.d]
Concat2(a, b, ax) ==
  LET i == ax + 1 IN
  Build([a.s EXCEPT ![i] = @ + b.s[i]], LAMBDA ix : IF ix[i] < a.s[i] THEN At(a, ix) ELSE At(b, [ix EXCEPT ![i] = @ - a.s[i]]))
RECURSIVE Concat(_, _)
Concat(ts, ax) == IF Len(ts) = 1 THEN ts[1]
                  ELSE Concat2(Concat(SubSeq(ts, 1, Len(ts) - 1), ax), ts[Len(ts)], ax)
Gather(t, ids, ax) ==
  LET n == Len(ids.s)
      s == SubSeq(t.s, 1, ax) \o ids.s \o SubSeq(t.s, ax + 2, Len(t.s))
  IN Build(s, LAMBDA ix : At(t, SubSeq(ix, 1, ax) \o <<At(ids, SubSeq(ix, ax + 1, ax + n))>> \o SubSeq(ix, ax + n + 1, Len(ix))))
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Bound(x, n) == Clamp(IF x < 0 THEN n + x ELSE x, 0, n)
Slice(t, st, en, sd) ==
  LET lo(i) == Bound(st[i], t.s[i])
      hi(i) == Bound(en[i], t.s[i])
      s == [i \in 1 .. Len(t.s) |-> IF hi(i) <= lo(i) THEN 0 ELSE (hi(i) - lo(i) + sd[i] - 1) \div sd[i]]
  IN Build(s, LAMBDA ix : At(t, [i \in 1 .. Len(t.s) |-> lo(i) + ix[i] * sd[i]]))
\* scalar functions
Fn(name, a) == CASE name = "addmod" -> (a[1] + a[2]) % 97
                 [] name = "sub" -> (a[1] - a[2]) % 97
                 [] name = "mulmod" -> (a[1] * a[2]) % 97
                 [] name = "affine" -> (2 * a[1] + 3) % 97
                 [] name = "less" -> IF a[1] < a[2] THEN 1 ELSE 0
                 [] name = "pick" -> IF a[1] % 2 = 1 THEN a[2] ELSE a[3]
\* pointwise with scalars (rank 0) broadcast
Shaped(ts) == IF \E i \in 1 .. Len(ts) : ts[i].s # <<>> THEN ts[CHOOSE i \in 1 .. Len(ts) : ts[i].s # <<>>].s ELSE <<>>
Pointwise(name, ts) == Build(Shaped(ts), LAMBDA ix : Fn(name, [i \in 1 .. Len(ts) |-> IF ts[i].s = <<>> THEN ts[i].d[1] ELSE At(ts[i], ix)]))
Total(t) == [s |-> <<>>, d |-> <<SumTo(t.d, Len(t.d)) % 97>>]
Args(env, ins) == [k \in 1 .. Len(ins) |-> env[ins[k]]]
Apply(o, a) == CASE o.k = "const" -> <<o.t>>
                 [] o.k = "transpose" -> <<Transpose(a[1], o.perm)>>
                 [] o.k = "reshape" -> <<Reshape(a[1], o.shape)>>
                 [] o.k = "concat" -> <<Concat(a, o.axis)>>
                 [] o.k = "gather" -> <<Gather(a[1], a[2], o.axis)>>
                 [] o.k = "slice" -> <<Slice(a[1], o.st, o.en, o.sd)>>
                 [] o.k = "point" -> <<Pointwise(o.fn, a)>>
                 [] o.k = "two" -> <<Pointwise(o.fn, a), Pointwise("affine", <<a[1]>>)>>
                 [] o.k = "total" -> <<Total(a[1])>>
RECURSIVE Run(_, _, _)
Run(ops, env, i) == IF i > Len(ops) THEN env ELSE Run(ops, env \o Apply(ops[i], Args(env, ops[i].ins)), i + 1)
=============================================================================
