------------------------------ MODULE Penalty ------------------------------
(***************************************************************************)
(* The penalties regain's models are built from and their proximal maps.   *)
(* Pen(psi, X) is the value of the penalty on one matrix (a difference of  *)
(* two consecutive matrices), ProxPen(psi, X, lam) the unique minimiser of *)
(*     lam * Pen(psi, Y) + 1/2 ||Y - X||_F^2   over Y.                     *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

Norm2(v) == RSqrt(SumSq(v))

\* shrink a vector towards zero by lam in Euclidean norm
VecSoft(v, lam) == LET n == Norm2(v)
                   IN IF RLe(n, lam) THEN Mul(v, R(0)) ELSE Mul(v, Sub(R(1), RDiv(lam, n)))

\* prox of lam*max|v_i| : clip at the level where the clipped mass is lam
ClipLevel(v, lam) ==
  LET s == SortR(Abs(v))
      n == Len(s)
      RECURSIVE Best(_, _, _)
      Best(k, acc, m) == IF k = 0 THEN m
                         ELSE LET a2 == Add(acc, s[k])
                                  c == RDiv(Sub(a2, lam), R(n - k + 1))
                              IN Best(k - 1, a2, RMax(m, c))
  IN Best(n, R(0), R(0))
VecClip(v, lam) == LET m == ClipLevel(v, lam) IN EMax(EMin(v, m), Mul(R(-1), m))

ColSoft(X, lam) == LET C == MT(X) IN MT([j \in 1..Len(C) |-> VecSoft(C[j], lam)])
ColClip(X, lam) == LET C == MT(X) IN MT([j \in 1..Len(C) |-> VecClip(C[j], lam)])

SumColNorm2(X) == LET C == MT(X) IN Sum([j \in 1..Len(C) |-> Norm2(C[j])])
SumColMax(X) == LET C == MT(X) IN Sum([j \in 1..Len(C) |-> MaxAbs(C[j])])

\* node penalty: cheapest split X = V + V' measured by the column norms of V
NodeSplit(X) ==
  LET m == MaxAbs(X)
      Step(s) == LET W == ColSoft(Sub(s.V, s.U), m)
                     WU == Add(W, s.U)
                     V == Mul(R("0.5"), Add(X, Sub(WU, MT(WU))))
                 IN [V |-> V, U |-> Sub(WU, V),
                     e |-> RMax(MaxAbs(Sub(W, V)), MaxAbs(Sub(V, s.V)))]
      Stop(s) == RLe(s.e, Mul(m, R("1e-11")))
  IN IF RLe(m, R(0)) THEN X
     ELSE Iterate(Step, [V |-> Mul(R("0.5"), X), U |-> Mul(R(0), X), e |-> R("inf")], Stop, 4000).V

Pen(psi, X) == CASE psi = "laplacian" -> SumSq(X)
                 [] psi = "l1" -> SumAbs(X)
                 [] psi = "l2" -> SumColNorm2(X)
                 [] psi = "linf" -> SumColMax(X)
                 [] psi = "node" -> SumColNorm2(NodeSplit(X))

\* prox of the node penalty: min lam*sum_j|V_j| + 1/2|V+V' - X|^2, by ADMM on V = Z
\* Z-step (X symmetric): (V+V'-X) has gradient 2(Z+Z'-X); with weight 4 on |Z-(V-U)|^2/2
\* the symmetric part becomes (2X+4M)/(4+4)... written for Z = sym + skew below.
ProxNode(X, lam) ==
  LET r == R(2)
      Step(s) == LET M == Add(s.V, s.U)
                     MS == Sym(M)
                     MK == Sub(M, MS)
                     \* minimise 1/2|2 Zs - X|^2 + r/2 |Zs - MS|^2  over symmetric Zs; skew part free
                     ZS == EDiv(Add(Mul(R(2), X), Mul(r, MS)), Add(R(4), r))
                     Z == Add(ZS, MK)
                     V == ColSoft(Sub(Z, s.U), RDiv(lam, r))
                 IN [V |-> V, Z |-> Z, U |-> Add(s.U, Sub(V, Z)),
                     e |-> RMax(MaxAbs(Sub(V, Z)), MaxAbs(Sub(V, s.V)))]
      Stop(s) == RLe(s.e, R("1e-11"))
      f == Iterate(Step, [V |-> Mul(R("0.5"), X), Z |-> X, U |-> Mul(R(0), X), e |-> R("inf")], Stop, 4000)
  IN Add(f.V, MT(f.V))

ProxPen(psi, X, lam) == CASE psi = "laplacian" -> EDiv(X, Add(R(1), Mul(R(2), lam)))
                          [] psi = "l1" -> Soft(X, lam)
                          [] psi = "l2" -> ColSoft(X, lam)
                          [] psi = "linf" -> ColClip(X, lam)
                          [] psi = "node" -> ProxNode(X, lam)

\* off-diagonal l1: the diagonal is never penalised
OdNorm1(X) == SumAbs(OffDiag(X))
OdSoft(X, lam) == Add(OffDiag(Soft(X, lam)), Sub(X, OffDiag(X)))

\* spectral maps of a symmetric matrix
Spectral(X, f(_)) == LET w == EigVals(X)
                         Q == EigVecs(X)
                     IN MMul(MMul(Q, Diag([k \in 1..Len(w) |-> f(w[k])])), MT(Q))
\* min tau*tr(Y) + 1/2|Y-X|^2 over Y psd
ProxTrace(X, tau) == Spectral(X, LAMBDA e : RMax(Sub(e, tau), R(0)))
\* min lam*(-logdet Y) + 1/2|Y-X|^2
ProxNegLogDet(X, lam) ==
  Spectral(X, LAMBDA e : RDiv(Add(e, RSqrt(Add(Mul(e, e), Mul(R(4), lam)))), R(2)))
=============================================================================
