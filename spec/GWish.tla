------------------------------- MODULE GWish -------------------------------
(***************************************************************************)
(* Undirected graphs over p nodes and the G-Wishart distribution on the     *)
(* precisions with that support.                                            *)
(*   density of K in P_G:  |K|^((d-2)/2) exp(-tr(K D)/2)                    *)
(*   its mode for (d, D): the precision in P_G whose inverse agrees with    *)
(*   D/(d-2) on the edges and the diagonal                                  *)
(*   score: log-likelihood with the BIC penalty, or the Laplace             *)
(*   approximation of the log marginal likelihood                           *)
(***************************************************************************)
EXTENDS TraceBase
Pairs(p) == {e \in (1..p) \X (1..p) : e[1] < e[2]}
\* E: set of pairs (i < j)
EdgesOf(K, tol) == {e \in Pairs(Len(K)) : RLt(tol, Abs(K[e[1]][e[2]]))}
\* a graph given as an upper triangular boolean matrix
EdgesOfB(G) == {e \in Pairs(Len(G)) : G[e[1]][e[2]]}
IsMLE(P, C, E, tol) ==
  LET p == Len(P)
      W == MInv(P)
  IN /\ \A e \in Pairs(p) : e \notin E => (RSign(P[e[1]][e[2]]) = 0 /\ RSign(P[e[2]][e[1]]) = 0)
     /\ \A e \in E \cup {<<i, i>> : i \in 1..p} :
          RLe(Abs(Sub(W[e[1]][e[2]], C[e[1]][e[2]])), Mul(tol, RSqrt(Mul(C[e[1]][e[1]], C[e[2]][e[2]]))))
\* iterative proportional fitting over the edges and the single nodes
IPF(C, E, sweeps) ==
  LET p == Len(C)
      parts == {<<e[1], e[2]>> : e \in E} \cup {<<i>> : i \in {j \in 1..p : \A e \in E : e[1] # j /\ e[2] # j}}
      sub(M, a) == [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> M[a[i]][a[j]]]]
      pos(a, i) == IF Len(a) = 1 THEN (IF a[1] = i THEN 1 ELSE 0) ELSE (IF a[1] = i THEN 1 ELSE IF a[2] = i THEN 2 ELSE 0)
      step(K, a) == LET D == Sub(MInv(sub(C, a)), MInv(sub(MInv(K), a)))
                    IN Force([i \in 1..p |-> [j \in 1..p |-> IF pos(a, i) > 0 /\ pos(a, j) > 0 THEN Add(K[i][j], D[pos(a, i)][pos(a, j)]) ELSE K[i][j]]])
      RECURSIVE Walk(_, _)
      Walk(K, Q) == IF Q = {} THEN K ELSE LET a == CHOOSE a \in Q : TRUE IN Walk(step(K, a), Q \ {a})
      K0 == Diag([i \in 1..p |-> RDiv(R(1), C[i][i])])
  IN Iterate(LAMBDA K : Walk(K, parts), K0, LAMBDA K : IsMLE(K, C, E, R("1e-11")), sweeps)
\* free parameters: diagonal and edges; second derivatives of log|K| at K = W^-1
Params(p, E) == {<<i, i>> : i \in 1..p} \cup E
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* tr(W E_a W E_b) for the symmetric unit matrices E_a, E_b
Curv(W, a, b) ==
  LET ia == a[1]  ja == a[2]  ib == b[1]  jb == b[2]
      pa == IF ia = ja THEN {<<ia, ia>>} ELSE {<<ia, ja>>, <<ja, ia>>}
      pb == IF ib = jb THEN {<<ib, ib>>} ELSE {<<ib, jb>>, <<jb, ib>>}
  IN RSumSet(LAMBDA z : Mul(W[z[2][2]][z[1][1]], W[z[1][2]][z[2][1]]), pa \X pb)
\* log of the normalising constant of the G-Wishart (d, .) with mode P by Laplace's method
LogNorm(P, d, E, full) ==
  LET p == Len(P)
      W == Force(MInv(P))
      par == SeqOf(Params(p, E))
      m == Len(par)
      half == RDiv(Sub(d, R(2)), R(2))
      H == [a \in 1..m |-> [b \in 1..m |-> Mul(half, Curv(W, par[a], par[b]))]]
      ld == IF full THEN LogDet(H) ELSE Sum([a \in 1..m |-> RLog(H[a][a])])
      peak == Mul(half, Sub(LogDet(P), R(p)))
  IN Add(Mul(RDiv(R(m), R(2)), RLog(Mul(R(2), R("3.14159265358979323846")))), Sub(peak, Mul(R("0.5"), ld)))
LogLik(S, P, n) == Mul(RDiv(R(n), R(2)), Sub(Sub(LogDet(P), Inner(EDiv(S, R(n)), P)), Mul(R(Len(P)), RLog(Mul(R(2), R("3.14159265358979323846"))))))
Score(method, S, n, P, E, d0, P0) ==
  LET p == Len(P)
  IN IF method = "bic" THEN Sub(LogLik(S, P, n), Mul(RDiv(R(p + Cardinality(E)), R(2)), RLog(R(n))))
     ELSE Sub(Sub(LogNorm(P, Add(R(n), d0), E, method = "laplace"), LogNorm(P0, d0, E, method = "laplace")),
              Mul(RDiv(R(n * p), R(2)), RLog(Mul(R(2), R("3.14159265358979323846")))))
\* n times the empirical covariance (centred)
Scatter(X) ==
  LET mu == EDiv(FoldLeft(LAMBDA a, x : Add(a, x), Mul(R(0), X[1]), X), R(Len(X)))
      Z == [i \in 1..Len(X) |-> Sub(X[i], mu)]
  IN Force(MMul(MT(Z), Z))
VarDiag(X) == Diag(EDiv(DiagOf(Scatter(X)), R(Len(X))))
Scale(M, c) == Mul(c, M)
\* R^2 of the lasso  (1/2n)|y - b - Xw|^2 + alpha |w|_1   by coordinate descent
Col(X, j) == [i \in 1..Len(X) |-> X[i][j]]
Centre(v) == Sub(v, RDiv(Sum(v), R(Len(v))))
LassoR2(X, J, t, alpha) ==
  LET n == Len(X)
      y == Force(Centre(Col(X, t)))
      js == SeqOf(J)
      m == Len(js)
      Z == [k \in 1..m |-> Force(Centre(Col(X, js[k])))]
      G == Force([k \in 1..m |-> [l \in 1..m |-> RDiv(Dot(Z[k], Z[l]), R(n))]])
      r == Force([k \in 1..m |-> RDiv(Dot(Z[k], y), R(n))])
      upd(w, k) == LET g == Add(Sub(r[k], Dot(G[k], w)), Mul(G[k][k], w[k])) IN [w EXCEPT ![k] = RDiv(Soft(g, alpha), G[k][k])]
      sweep(w) == Force(FoldLeft(upd, w, [k \in 1..m |-> k]))
      w0 == [k \in 1..m |-> R(0)]
      w == IF m = 0 THEN <<>> ELSE Iterate(sweep, w0, LAMBDA v : Close(v, sweep(v), R("1e-13"), R("1e-13")), 4000)
      fit == FoldLeft(LAMBDA a, k : Add(a, Mul(w[k], Z[k])), Mul(R(0), y), [k \in 1..m |-> k])
  IN IF m = 0 THEN R(0) ELSE Sub(R(1), RDiv(SumSq(Sub(y, fit)), SumSq(y)))
BlanketScores(X, Js, t, alphas) ==
  LET v == [k \in 1..Len(Js) |-> Sum([a \in 1..Len(alphas) |-> LassoR2(X, Js[k], t, alphas[a])])]
      e == EExp(v)
  IN EDiv(e, Sum(e))
\* negative half energy of the G-Wishart and its derivatives
Hfun(D, K, d) == Mul(R("-0.5"), Sub(Inner(K, D), Mul(Sub(d, R(2)), LogDet(K))))
=============================================================================
