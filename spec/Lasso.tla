------------------------------- MODULE Lasso -------------------------------
(***************************************************************************)
(* Group-penalised least squares.                                          *)
(*   sum-of-norms   F(x) = 1/2 |Ax-b|^2 + lam * sum_g |x_g|  (g may overlap)*)
(*   latent         F(x) = 1/(2n) |Ax-b|^2 + tau * inf{ sum_g |v_g| : sum v_g = x } *)
(* and the ADMM iterations the solvers document.                           *)
(* Groups are sequences of 1-based indices.                                *)
(***************************************************************************)
EXTENDS TraceBase
Norm(v) == RSqrt(SumSq(v))
Pick(x, g) == [k \in 1..Len(g) |-> x[g[k]]]
BlockProx(v, l) == LET n == Norm(v) IN IF RLe(n, l) THEN Mul(R(0), v) ELSE Mul(Sub(R(1), RDiv(l, n)), v)
GNorm(x, G) == Sum(<<R(0)>> \o [i \in 1..Len(G) |-> Norm(Pick(x, G[i]))])
LS(A, b, x) == Mul(R("0.5"), SumSq(Sub(MVec(A, x), b)))
FSum(p, x) == Add(LS(p.A, p.b, x), Mul(p.lam, GNorm(x, p.G)))
Zeros(n) == [i \in 1..n |-> R(0)]
PosIn(g, i) == CHOOSE k \in 1..Len(g) : g[k] = i
InG(g, i) == \E k \in 1..Len(g) : g[k] = i
\* sum of local copies at the features
Scatter(xs, G, d) == [i \in 1..d |-> Sum(<<R(0)>> \o [j \in 1..Len(G) |-> IF InG(G[j], i) THEN xs[j][PosIn(G[j], i)] ELSE R(0)])]
Count(G, d) == [i \in 1..d |-> R(Cardinality({j \in 1..Len(G) : InG(G[j], i)}))]
SafeDiv(a, c) == [i \in 1..Len(a) |-> IF RLe(c[i], R(0)) THEN R(0) ELSE RDiv(a[i], c[i])]

\* ---- ADMM for a partition (lasso, group lasso)
InitZ(p) == LET d == Len(p.A[1]) IN [x |-> Zeros(d), z |-> Zeros(d), u |-> Zeros(d), zo |-> Zeros(d)]
ProxG(v, G, l) ==
  LET blk == Force([j \in 1..Len(G) |-> BlockProx(Pick(v, G[j]), l)]) IN Scatter(blk, G, Len(v))
StepZ(p, s) ==
  LET x == MVec(p.inv, Add(p.Atb, Mul(p.rho, Sub(s.z, s.u))))
      xh == Add(Mul(p.relax, x), Mul(Sub(R(1), p.relax), s.z))
      z == ProxG(Add(xh, s.u), p.G, RDiv(p.lam, p.rho))
  IN Force([x |-> x, z |-> z, u |-> Add(s.u, Sub(xh, z)), zo |-> s.z])
ReportZ(p, s) ==
  LET d == R(Len(s.x)) IN
  << Add(LS(p.A, p.b, s.x), Mul(p.lam, GNorm(s.z, p.G))), Norm(Sub(s.x, s.z)), Mul(p.rho, Norm(Sub(s.z, s.zo))),
     Add(Mul(RSqrt(d), p.tol), Mul(p.rtol, RMax(Norm(s.x), Norm(s.z)))), Add(Mul(RSqrt(d), p.tol), Mul(p.rtol, Mul(p.rho, Norm(s.u)))) >>
\* ---- consensus ADMM for overlapping groups
InitC(p) == LET d == Len(p.A[1]) IN [x |-> [j \in 1..Len(p.G) |-> Zeros(Len(p.G[j]))], z |-> Zeros(d), y |-> [j \in 1..Len(p.G) |-> Zeros(Len(p.G[j]))], zo |-> Zeros(d), yb |-> Zeros(d)]
StepC(p, s) ==
  LET d == Len(s.z)
      xs == Force([j \in 1..Len(p.G) |-> BlockProx(Sub(Pick(s.z, p.G[j]), Mul(RDiv(R(1), p.rho), s.y[j])), RDiv(p.lam, p.rho))])
      z == MVec(p.inv, Add(p.Atb, Add(Scatter(s.y, p.G, d), Mul(p.rho, Scatter(xs, p.G, d)))))
      y == [j \in 1..Len(p.G) |-> Add(s.y[j], Mul(p.rho, Sub(xs[j], Pick(z, p.G[j]))))]
  IN Force([x |-> xs, z |-> z, y |-> y, zo |-> s.z, yb |-> SafeDiv(Scatter(s.y, p.G, d), p.cnt)])
ReportC(p, s) ==
  LET d == R(Len(s.z))
      xb == SafeDiv(Scatter(s.x, p.G, Len(s.z)), p.cnt)
  IN << Add(LS(p.A, p.b, s.z), Mul(p.lam, Sum(<<R(0)>> \o [j \in 1..Len(p.G) |-> Norm(s.x[j])]))), Norm(Sub(xb, s.z)), Mul(p.rho, Norm(Sub(s.z, s.zo))),
        Add(Mul(RSqrt(d), p.tol), Mul(p.rtol, RMax(Norm(xb), Norm(s.z)))), Add(Mul(RSqrt(d), p.tol), Mul(p.rtol, Mul(p.rho, Norm(s.yb)))) >>
Stops(h) == RLt(h[2], h[4]) /\ RLt(h[3], h[5])

\* problem record with precomputed parts
Prob(A, b, lam, G, rho, relax, tol, rtol) ==
  LET d == Len(A[1])
      cnt == Count(G, d)
  IN Force([A |-> A, b |-> b, lam |-> lam, G |-> G, rho |-> rho, relax |-> relax, tol |-> tol, rtol |-> rtol, cnt |-> cnt,
      Atb |-> MVec(MT(A), b), inv |-> MInv(Add(MMul(MT(A), A), Mul(rho, Eye(d))))])
ProbC(A, b, lam, G, rho, tol, rtol) ==
  LET p == Prob(A, b, lam, G, rho, R(1), tol, rtol) IN Force([p EXCEPT !.inv = MInv(Add(MMul(MT(A), A), Mul(rho, Diag(p.cnt))))])

\* reference optima
RefSum(p) == LET st == Iterate(LAMBDA s : StepC(p, s), InitC(p), LAMBDA s : FALSE, 1500) IN st.z
\* latent: non-overlapping problem on duplicated features, accelerated proximal gradient
DupIdx(G) == FlatSeq(G)
DupGroups(G) == [j \in 1..Len(G) |-> LET o == Len(FlatSeq(SubSeq(G, 1, j - 1))) IN [k \in 1..Len(G[j]) |-> o + k]]
RefLatent(A, b, tau, G) ==
  LET n == R(Len(A))
      id == Force(DupIdx(G))
      DG == Force(DupGroups(G))
      E == Force([i \in 1..Len(A) |-> Pick(A[i], id)])
      ET == Force(Mul(RDiv(R(1), n), MT(E)))
      L == LET ev == EigVals(MMul(ET, E)) IN Add(MaxAbs(ev), R("1e-9"))
      stp(s) == LET g == MVec(ET, Sub(MVec(E, s.h), b))
                    v == ProxG(Sub(s.h, Mul(RDiv(R(1), L), g)), DG, RDiv(tau, L))
                    t == Mul(R("0.5"), Add(R(1), RSqrt(Add(R(1), Mul(R(4), Mul(s.t, s.t))))))
                    up == RLt(R(0), Dot(Sub(s.h, v), Sub(v, s.v)))   \* restart when momentum points uphill
                    tt == IF up THEN R(1) ELSE t
                IN Force([v |-> v, h |-> IF up THEN v ELSE Add(v, Mul(RDiv(Sub(s.t, R(1)), t), Sub(v, s.v))), t |-> tt])
      z0 == Zeros(Len(id))
      r == Iterate(LAMBDA s : stp(s), [v |-> z0, h |-> z0, t |-> R(1)], LAMBDA s : FALSE, 3000)
      d == Len(A[1])
  IN [i \in 1..d |-> Sum(<<R(0)>> \o [k \in 1..Len(id) |-> IF id[k] = i THEN r.v[k] ELSE R(0)])]
=============================================================================
