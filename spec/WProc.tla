------------------------------- MODULE WProc -------------------------------
(***************************************************************************)
(* Generalised Wishart process: nu x p independent Gaussian processes u     *)
(* over T times with kernel K(theta), covariances                           *)
(*   V_t = L (sum_i u_i(t) u_i(t)^T) L^T.                                   *)
(* State of the sampler: (u, theta, L); every transition (slice step on u,  *)
(* Metropolis step on theta, Metropolis sweep on L) leaves                  *)
(*   prior(theta) N(u | 0, K(theta)) prior(L) likelihood(V)                 *)
(* invariant, and the first two are reversible.                             *)
(***************************************************************************)
EXTENDS Distrib
\* u[i][j][t]
VAt(u, L, t) ==
  LET nu == Len(u)
      p == Len(L)
      vec(i) == MVec(L, [j \in 1..p |-> u[i][j][t]])
  IN FoldLeft(LAMBDA a, i : LET v == vec(i) IN Add(a, Outer(v, v)), Mul(R(0), MMul(L, MT(L))), [i \in 1..nu |-> i])
Construct(u, L) == [t \in 1..Len(u[1][1]) |-> Force(VAt(u, L, t))]
\* conditional mean of u at the test times given u at the training times
Interp(u, A, K) ==
  LET W == Force(MMul(A, MInv(K)))
  IN [i \in 1..Len(u) |-> [j \in 1..Len(u[1]) |-> MVec(W, u[i][j])]]
\* --- the slice step as a transition system: a bracket of angles around the current point (angle 0), a threshold below its
\* log-likelihood; a proposal lies in the bracket; above the threshold it is taken, otherwise it becomes the edge of its side.
\* tr: the angles proposed in one step, the last one taken (width: full width of the initial bracket)
EdgesBefore(tr, k) ==
  LET up == {tr[i] : i \in {j \in 1..(k - 1) : RSign(tr[j]) > 0}}
      dn == {tr[i] : i \in {j \in 1..(k - 1) : RSign(tr[j]) < 0}}
      low(S) == CHOOSE x \in S : \A z \in S : RLe(x, z)
      high(S) == CHOOSE x \in S : \A z \in S : RLe(z, x)
  IN [up |-> up # {}, dn |-> dn # {}, hi |-> IF up = {} THEN R(0) ELSE low(up), lo |-> IF dn = {} THEN R(0) ELSE high(dn)]
InBracket(tr, k, width) ==
  LET e == EdgesBefore(tr, k)
  IN /\ (e.up => RLe(tr[k], e.hi)) /\ (e.dn => RLe(e.lo, tr[k]))
     /\ RLe(Abs(tr[k]), width)
     /\ \A i \in 1..(k - 1) : RLe(Abs(Sub(tr[i], tr[k])), Add(width, R("1e-9")))
\* --- judging averages of n independent draws
Mean(v) == RDiv(Sum(v), R(Len(v)))
SEof(v) == LET m == Mean(v) IN RSqrt(RDiv(SumSq(Sub(v, m)), Mul(R(Len(v)), R(Len(v)))))
\* v averages to m within k standard errors
Averages(v, m, k) == RLe(Abs(Sub(Mean(v), m)), Add(Mul(k, SEof(v)), R("1e-12")))
\* same, for the averages of consecutive batches of a chain
Batches(v, b) == LET m == Len(v) \div b IN [k \in 1..b |-> Mean(SubSeq(v, (k - 1) * m + 1, k * m))]
\* --- one-dimensional sampler  (p = nu = T = 1), K = g(theta), likelihood exp(-c V / 2)
\* marginal of (theta, L): prior x (1 + c g L^2)^(-1/2);  u | theta, L ~ N(0, g/(1 + c g L^2))

Grid(m, s, n) == [i \in 1..n |-> Add(m, Mul(s, Mul(R(6), RDiv(R(2 * i - n - 1), R(n - 1)))))]
=============================================================================
