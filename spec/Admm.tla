-------------------------------- MODULE Admm --------------------------------
(***************************************************************************)
(* The alternating-direction iterations regain documents for its models,   *)
(* as a state machine.  One transition is one pass of the solver's loop.   *)
(*                                                                         *)
(* Split "direct" (graphical lasso, time-varying, kernel): variable K with *)
(* copies Z0 (l1 term) and Z1[q], Z2[q] for every coupled pair q.          *)
(* Split "latent" (latent models and decompositions): variable R (loss),   *)
(* Z0 sparse part, W0 low-rank part, pair copies of each.                  *)
(* All duals are scaled by rho.                                            *)
(***************************************************************************)
EXTENDS Optim

Deg(p, t) == 1 + Cardinality({q \in 1..Len(p.pairs) : p.pairs[q][1] = t \/ p.pairs[q][2] = t})
Fst(p, X) == [q \in 1..Len(p.pairs) |-> X[p.pairs[q][1]]]
Snd(p, X) == [q \in 1..Len(p.pairs) |-> X[p.pairs[q][2]]]

\* base_t + sum of the pair terms touching t
RECURSIVE Gather(_, _, _, _, _, _)
Gather(p, t, q, base, A, B) ==
  IF q = 0 THEN base
  ELSE Gather(p, t, q - 1, IF p.pairs[q][1] = t THEN Add(base, A[q]) ELSE IF p.pairs[q][2] = t THEN Add(base, B[q]) ELSE base, A, B)

StartPoint(q, p) ==
  IF q.model \in {"IC", "LTMD"} \/ q.init = "zero" THEN [t \in 1..Len(p.S) |-> Mul(R(0), p.S[t])]
  ELSE IF q.init = "array" THEN q.K0
  ELSE [t \in 1..Len(p.S) |-> MInv(Add(Mul(R("0.95"), OffDiag(p.S[t])), Sub(p.S[t], OffDiag(p.S[t]))))]

AdmmInit(q, p) ==
  LET K0 == Force(StartPoint(q, p))
      O == Force(Mul(R(0), K0))
      NP == Len(p.pairs)
      OP == [i \in 1..NP |-> Mul(R(0), p.S[1])]
  IN [Z0 |-> K0, Z1 |-> Fst(p, K0), Z2 |-> Snd(p, K0), U0 |-> O, U1 |-> OP, U2 |-> OP,
      W0 |-> O, W1 |-> OP, W2 |-> OP, V1 |-> OP, V2 |-> OP,
      K |-> K0, oldA |-> O, oldW |-> O, old1 |-> OP, old2 |-> OP, old3 |-> OP, old4 |-> OP,
      rho |-> q.rho, c |-> [rnorm |-> R("nan"), snorm |-> R("nan"), e_pri |-> R("nan"), e_dual |-> R("nan"), obj |-> <<>>]]

Half(X) == Mul(R("0.5"), X)
Sq(X) == IF X = <<>> THEN R(0) ELSE SumSq(X)
PairPen(W, psi, A, B) == IF W = <<>> THEN R(0) ELSE Sum([q \in 1..Len(W) |-> Mul(W[q], Pen(psi, Sub(B[q], A[q])))])
Tot(f(_), n) == Sum([t \in 1..n |-> f(t)])
PairProx(p, W, psi, a1, a2, rho) ==
  LET e == [q \in 1..Len(W) |-> ProxPen(psi, Sub(a2[q], a1[q]), RDiv(Mul(R(2), W[q]), rho))]
  IN Force(<<[q \in 1..Len(W) |-> Half(Sub(Add(a1[q], a2[q]), e[q]))], [q \in 1..Len(W) |-> Half(Add(Add(a1[q], a2[q]), e[q]))]>>)

NextRho(q, rho, r, s) == IF RLt(Mul(q.mu, s), r) THEN Mul(q.tau_inc, rho)
                         ELSE IF RLt(Mul(q.mu, r), s) THEN RDiv(rho, q.tau_dec) ELSE rho
Sub2(X, Y) == IF X = <<>> THEN <<>> ELSE Sub(X, Y)
Add2(X, Y) == IF X = <<>> THEN <<>> ELSE Add(X, Y)
Scl(s, X) == IF X = <<>> THEN <<>> ELSE Mul(s, X)

DirectStep(q, p, x) ==
  LET T == Len(p.S)
      NP == Len(p.pairs)
      rho == x.rho
      B1 == Sub2(x.Z1, x.U1)
      B2 == Sub2(x.Z2, x.U2)
      A(t) == Sym(EDiv(Gather(p, t, NP, Sub(x.Z0[t], x.U0[t]), B1, B2), R(Deg(p, t))))
      g(t) == RDiv(p.n[t], Mul(rho, R(Deg(p, t))))
      K == Force([t \in 1..T |-> ProxNegLogDet(Sub(A(t), Mul(g(t), p.S[t])), g(t))])
      Kh == Force(Add(Mul(q.over, K), Mul(Sub(R(1), q.over), x.Z0)))
      Z0 == Force([t \in 1..T |-> OdSoft(Add(Kh[t], x.U0[t]), RDiv(p.alpha, rho))])
      K1 == Fst(p, K)
      K2 == Snd(p, K)
      ZZ == PairProx(p, p.W, p.psi, Add2(K1, x.U1), Add2(K2, x.U2), rho)
      Z1 == ZZ[1]
      Z2 == ZZ[2]
      U0 == Force(Add(x.U0, Sub(Kh, Z0)))
      U1 == Force(Add2(x.U1, Sub2(K1, Z1)))
      U2 == Force(Add2(x.U2, Sub2(K2, Z2)))
      rn == RSqrt(Add(Sq(Sub(K, Z0)), Add(Sq(Sub2(K1, Z1)), Sq(Sub2(K2, Z2)))))
      sn == Mul(rho, RSqrt(Add(Sq(Sub(Z0, x.oldA)), Add(Sq(Sub2(Z1, x.old1)), Sq(Sub2(Z2, x.old2))))))
      dim == Mul(R(Len(p.S[1])), RSqrt(R(T + 2 * NP)))
      pr == RMax(RSqrt(Add(Sq(Z0), Add(Sq(Z1), Sq(Z2)))), RSqrt(Add(Sq(K), Add(Sq(K1), Sq(K2)))))
      du == RSqrt(Add(Sq(U0), Add(Sq(U1), Sq(U2))))
      cpl == PairPen(p.W, p.psi, Z1, Z2)
      ob(X, Y) == Add(cpl, Tot(LAMBDA t : Add(LossT(p, t, X[t]), Mul(p.alpha, OdNorm1(Y[t]))), T))
      r2 == NextRho(q, rho, rn, sn)
      f == RDiv(rho, r2)
  IN Force([x EXCEPT !.Z0 = Z0, !.Z1 = Z1, !.Z2 = Z2, !.K = K, !.oldA = Z0, !.old1 = Z1, !.old2 = Z2,
        !.U0 = Mul(f, U0), !.U1 = Scl(f, U1), !.U2 = Scl(f, U2), !.rho = r2,
        !.c = [rnorm |-> rn, snorm |-> sn, e_pri |-> Add(Mul(dim, q.tol), Mul(q.rtol, pr)),
               e_dual |-> Add(Mul(dim, q.tol), Mul(Mul(q.rtol, rho), du)),
               \* the objective may be evaluated at either copy of the iterate
               obj |-> <<ob(K, Z0), ob(Z0, K), ob(Z0, Z0), ob(K, K)>>]])

LatentStep(q, p, x) ==
  LET T == Len(p.S)
      NP == Len(p.pairs)
      rho == x.rho
      lp(t) == LET M == Sub(Sub(x.Z0[t], x.W0[t]), x.U0[t]) IN LossProx(p, t, IF p.loss = "ll" THEN Sym(M) ELSE M, rho)
      Rm == Force([t \in 1..T |-> lp(t)])
      B1 == Sub2(x.Z1, x.U1)
      B2 == Sub2(x.Z2, x.U2)
      Z0 == Force([t \in 1..T |->
              LET g == R(Deg(p, t))
              IN OdSoft(EDiv(Gather(p, t, NP, Add(Add(Rm[t], x.W0[t]), x.U0[t]), B1, B2), g), RDiv(p.alpha, Mul(rho, g)))])
      ZZ == PairProx(p, p.W, p.psi, Add2(Fst(p, Z0), x.U1), Add2(Snd(p, Z0), x.U2), rho)
      Z1 == ZZ[1]
      Z2 == ZZ[2]
      C1 == Sub2(x.W1, x.V1)
      C2 == Sub2(x.W2, x.V2)
      W0 == Force([t \in 1..T |->
              LET g == R(Deg(p, t))
              IN ProxTrace(Sym(EDiv(Gather(p, t, NP, Sub(Sub(Z0[t], Rm[t]), x.U0[t]), C1, C2), g)), RDiv(p.tau, Mul(rho, g)))])
      WW == PairProx(p, p.V, p.phi, Add2(Fst(p, W0), x.V1), Add2(Snd(p, W0), x.V2), rho)
      W1 == WW[1]
      W2 == WW[2]
      e0 == Force(Add(Sub(Rm, Z0), W0))
      e1 == Force(Sub2(Fst(p, Z0), Z1))
      e2 == Force(Sub2(Snd(p, Z0), Z2))
      e3 == Force(Sub2(Fst(p, W0), W1))
      e4 == Force(Sub2(Snd(p, W0), W2))
      U0 == Force(Add(x.U0, e0))
      U1 == Force(Add2(x.U1, e1))
      U2 == Force(Add2(x.U2, e2))
      V1 == Force(Add2(x.V1, e3))
      V2 == Force(Add2(x.V2, e4))
      S5(a, b, c, d, e) == RSqrt(Add(Sq(a), Add(Add(Sq(b), Sq(c)), Add(Sq(d), Sq(e)))))
      rn == S5(e0, e1, e2, e3, e4)
      \* W0 too: the two parts may drift together while their difference stands still
      sn == Mul(rho, S5(<<Sub(Rm, x.oldA), Sub(W0, x.oldW)>>, Sub2(Z1, x.old1), Sub2(Z2, x.old2), Sub2(W1, x.old3), Sub2(W2, x.old4)))
      dim == Mul(R(Len(p.S[1])), RSqrt(R(T + 4 * NP)))
      pr == RMax(S5(Rm, Z1, Z2, W1, W2), S5(Sub(Z0, W0), Fst(p, Z0), Snd(p, Z0), Fst(p, W0), Snd(p, W0)))
      du == S5(U0, U1, U2, V1, V2)
      ob == Add(Add(PairPen(p.W, p.psi, Z1, Z2), PairPen(p.V, p.phi, W1, W2)),
                Tot(LAMBDA t : Add(LossT(p, t, Rm[t]), Add(Mul(p.alpha, OdNorm1(Z0[t])), Mul(p.tau, Trace(W0[t])))), T))
      r2 == NextRho(q, rho, rn, sn)
      f == RDiv(rho, r2)
  IN Force([x EXCEPT !.Z0 = Z0, !.Z1 = Z1, !.Z2 = Z2, !.W0 = W0, !.W1 = W1, !.W2 = W2, !.K = Rm, !.oldA = Rm,
        !.old1 = Z1, !.old2 = Z2, !.old3 = W1, !.old4 = W2,
        !.U0 = Mul(f, U0), !.U1 = Scl(f, U1), !.U2 = Scl(f, U2), !.V1 = Scl(f, V1), !.V2 = Scl(f, V2), !.rho = r2,
        !.oldW = W0,
        !.c = [rnorm |-> rn, snorm |-> sn, e_pri |-> Add(Mul(dim, q.tol), Mul(q.rtol, pr)),
               e_dual |-> Add(Mul(dim, q.tol), Mul(Mul(q.rtol, rho), du)), obj |-> <<ob>>]])

AdmmStep(q, p, x) == IF p.lat THEN LatentStep(q, p, x) ELSE DirectStep(q, p, x)
\* the run may end here
Satisfied(h) == RLe(h.rnorm, h.e_pri) /\ RLe(h.snorm, h.e_dual)
=============================================================================
