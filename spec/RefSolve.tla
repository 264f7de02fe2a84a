------------------------------ MODULE RefSolve ------------------------------
(***************************************************************************)
(* The convex programs regain solves, and a reference solver for them.     *)
(*                                                                         *)
(* min  Sum_t n_t (-logdet R_t + <S_t,R_t>)  [loss "ll"]                   *)
(*   or Sum_t c   |R_t - S_t|_F^2            [loss "sq"]                   *)
(*    + alpha |K_t|_od,1 + tau tr(L_t)  (L_t psd, R_t = K_t - L_t)         *)
(*    + Sum_{s<t} W_st psi(K_t - K_s) + V_st phi(L_t - L_s)                *)
(*                                                                         *)
(* A problem is a record                                                   *)
(*   [loss, S, n, alpha, pairs, W, psi, lat, tau, V, phi, odall, symk]     *)
(* pairs a sequence of <<s,t>>, W and V the weights of the pairs; odall    *)
(* says that the l1 term includes the diagonal, symk that K is symmetric.  *)
(***************************************************************************)
EXTENDS Penalty

LossT(p, t, Rm) == IF p.loss = "ll" THEN Mul(p.n[t], Sub(Inner(p.S[t], Rm), LogDet(Rm)))
                   ELSE Mul(p.n[t], SumSq(Sub(Rm, p.S[t])))

Obj(p, K, L) ==
  LET T == Len(p.S)
      NP == Len(p.pairs)
      Rt(t) == IF p.lat THEN Sub(K[t], L[t]) ELSE K[t]
      perT(t) == Add(LossT(p, t, Rt(t)),
                     Add(Mul(p.alpha, IF p.odall THEN SumAbs(K[t]) ELSE OdNorm1(K[t])),
                         IF p.lat THEN Mul(p.tau, Trace(L[t])) ELSE R(0)))
      perP(q) == LET s == p.pairs[q][1]
                     t == p.pairs[q][2]
                 IN Add(Mul(p.W[q], Pen(p.psi, Sub(K[t], K[s]))),
                        IF p.lat THEN Mul(p.V[q], Pen(p.phi, Sub(L[t], L[s]))) ELSE R(0))
  IN Add(Sum([t \in 1..T |-> perT(t)]), IF NP = 0 THEN R(0) ELSE Sum([q \in 1..NP |-> perP(q)]))

(* Consensus ADMM: copies R (loss), P (l1), Q (psd), one pair of copies per *)
(* coupled pair; the K,L update solves the per-t normal equations.          *)
RefInit(p) ==
  LET T == Len(p.S)
      d == Len(p.S[1])
      Z == Mul(R(0), Eye(d))
      K0 == [t \in 1..T |-> Eye(d)]
      L0 == [t \in 1..T |-> Z]
      PZ == [q \in 1..Len(p.pairs) |-> Z]
  IN [K |-> K0, L |-> L0, P |-> K0, Q |-> L0,
      uR |-> L0, uP |-> L0, uQ |-> L0, uA |-> PZ, uB |-> PZ, uC |-> PZ, uD |-> PZ,
      e |-> R("inf"), k |-> 0]

LossProx(p, t, M, rho) ==
  IF p.loss = "ll"
  THEN ProxNegLogDet(Sub(M, Mul(RDiv(p.n[t], rho), p.S[t])), RDiv(p.n[t], rho))
  ELSE LET c == Mul(R(2), p.n[t]) IN EDiv(Add(Mul(c, p.S[t]), Mul(rho, M)), Add(c, rho))

RefStep(p, rho, x) ==
  LET T == Len(p.S)
      TT == 1..T
      NP == Len(p.pairs)
      Fst(X) == [q \in 1..NP |-> X[p.pairs[q][1]]]
      Snd(X) == [q \in 1..NP |-> X[p.pairs[q][2]]]
      SymK(X) == IF p.symk THEN Sym(X) ELSE X
      M == Force(Add(IF p.lat THEN Sub(x.K, x.L) ELSE x.K, x.uR))
      Rn == Force([t \in TT |-> LossProx(p, t, SymK(M[t]), rho)])
      KP == Add(x.K, x.uP)
      ar == RDiv(p.alpha, rho)
      P == Force(IF p.odall THEN Soft(KP, ar) ELSE [t \in TT |-> OdSoft(KP[t], ar)])
      LQ == Add(x.L, x.uQ)
      Q == IF p.lat THEN Force([t \in TT |-> ProxTrace(Sym(LQ[t]), RDiv(p.tau, rho))]) ELSE x.Q
      a1 == Force(Add(Fst(x.K), x.uA))
      a2 == Force(Add(Snd(x.K), x.uB))
      eK == Force([q \in 1..NP |-> ProxPen(p.psi, Sub(a2[q], a1[q]), RDiv(Mul(R(2), p.W[q]), rho))])
      h == R("0.5")
      A == Mul(h, Sub(Add(a1, a2), eK))
      B == Mul(h, Add(Add(a1, a2), eK))
      c1 == Force(Add(Fst(x.L), x.uC))
      c2 == Force(Add(Snd(x.L), x.uD))
      eL == Force([q \in 1..NP |-> ProxPen(p.phi, Sub(c2[q], c1[q]), RDiv(Mul(R(2), p.V[q]), rho))])
      C == Mul(h, Sub(Add(c1, c2), eL))
      D == Mul(h, Add(Add(c1, c2), eL))
      Au == Force(Sub(A, x.uA))
      Bu == Force(Sub(B, x.uB))
      Cu == Force(Sub(C, x.uC))
      Du == Force(Sub(D, x.uD))
      RuR == Force(Sub(Rn, x.uR))
      RECURSIVE SumP(_, _, _, _)
      SumP(t, q, X, Y) == IF q = 0 THEN <<>>
                          ELSE LET s == SumP(t, q - 1, X, Y)
                               IN IF p.pairs[q][1] = t THEN Append(s, X[q])
                                  ELSE IF p.pairs[q][2] = t THEN Append(s, Y[q]) ELSE s
      RECURSIVE AddAll(_, _)
      AddAll(s, acc) == IF s = <<>> THEN acc ELSE AddAll(Tail(s), Add(acc, Head(s)))
      Kn(t) == LET ss == SumP(t, NP, Au, Bu)
               IN SymK(EDiv(AddAll(ss, Add(Sub(P[t], x.uP[t]), RuR[t])), R(2 + Len(ss))))
      KLn(t) == LET ss == SumP(t, NP, Au, Bu)
                    ls == SumP(t, NP, Cu, Du)
                    rK == SymK(AddAll(ss, Add(Sub(P[t], x.uP[t]), RuR[t])))
                    rL == SymK(AddAll(ls, Sub(Sub(Q[t], x.uQ[t]), RuR[t])))
                    dK == 2 + Len(ss)
                    dL == 2 + Len(ls)
                    det == R(dK * dL - 1)
                IN <<EDiv(Add(Mul(R(dL), rK), rL), det), EDiv(Add(Mul(R(dK), rL), rK), det)>>
      KL == Force(IF p.lat THEN [t \in TT |-> KLn(t)] ELSE [t \in TT |-> <<Kn(t)>>])
      K == Force([t \in TT |-> KL[t][1]])
      L == IF p.lat THEN Force([t \in TT |-> KL[t][2]]) ELSE x.L
      dR == Force(Sub(IF p.lat THEN Sub(K, L) ELSE K, Rn))
      dP == Force(Sub(K, P))
      dQ == IF p.lat THEN Force(Sub(L, Q)) ELSE x.uQ
      dA == Force(Sub(Fst(K), A))
      dB == Force(Sub(Snd(K), B))
  IN [K |-> K, L |-> L, P |-> P, Q |-> Q,
      uR |-> Add(x.uR, dR), uP |-> Add(x.uP, dP), uQ |-> IF p.lat THEN Add(x.uQ, dQ) ELSE x.uQ,
      uA |-> Add(x.uA, dA), uB |-> Add(x.uB, dB),
      uC |-> IF p.lat THEN Add(x.uC, Sub(Fst(L), C)) ELSE x.uC,
      uD |-> IF p.lat THEN Add(x.uD, Sub(Snd(L), D)) ELSE x.uD,
      e |-> RMax(RMax(MaxAbs(dR), MaxAbs(dP)),
                 RMax(Mul(rho, MaxAbs(Sub(K, x.K))), IF p.lat THEN RMax(MaxAbs(dQ), MaxAbs(Sub(L, x.L))) ELSE R(0))),
      k |-> x.k + 1]

RefSolve(p, rho, tol, maxit) ==
  LET Step(x) == RefStep(p, rho, x)
      Stop(x) == RLe(x.e, tol)
  IN Iterate(Step, RefInit(p), Stop, maxit)

\* the value reached by the reference (at a feasible point), and its argument
RefValue(p, s) == Obj(p, s.P, s.Q)
=============================================================================
