------------------------------ MODULE GlmTime ------------------------------
(***************************************************************************)
(* Temporal Ising and Poisson models:                                      *)
(*  min Sum_t loss(X_t, K_t) + alpha |K_t|_od,1 + Sum_{s<t} W_st psi(K_t-K_s) *)
(***************************************************************************)
EXTENDS Glm
Pairs(T) == LET RECURSIVE P(_, _)
                P(i, j) == IF i >= T THEN <<>> ELSE IF j > T THEN P(i + 1, i + 2) ELSE <<<<i, j>>>> \o P(i, j + 1)
            IN P(1, 2)
TObj(f, X, K, alpha, W, psi) ==
  LET T == Len(X)
      pr == Pairs(T)
      base == Sum([t \in 1..T |-> Add(SymLoss(f, X[t], OffDiag(K[t])), Mul(alpha, OdNorm1(K[t])))])
  IN IF Len(pr) = 0 THEN base
     ELSE Add(base, Sum([q \in 1..Len(pr) |-> Mul(W[pr[q][1]][pr[q][2]], Pen(psi, Sub(K[pr[q][2]], K[pr[q][1]])))]))
\* Condat-Vu primal-dual iteration: primal K, one dual matrix per pair
RefTime(f, X, alpha, W, psi) ==
  LET T == Len(X)
      d == Len(X[1][1])
      pr == Pairs(T)
      NP == Len(pr)
      Z == Mul(R(0), Eye(d))
      L == Force(MaxElt([t \in 1..T |-> MaxElt(EigVals(Sym(EDiv(MMul(MT(X[t]), X[t]), R(Len(X[t]))))))]))
      sg == R("0.5")
      tau == RDiv(R(1), Add(RDiv(L, R(2)), Add(Mul(sg, R(T + 1)), R("1e-2"))))
      Step(s) ==
        LET DY(t) == IF NP = 0 THEN Z
                     ELSE LET RECURSIVE A(_)
                              A(q) == IF q > NP THEN Z
                                      ELSE Add(IF pr[q][2] = t THEN s.Y[q] ELSE IF pr[q][1] = t THEN Mul(R(-1), s.Y[q]) ELSE Z, A(q + 1))
                          IN A(1)
            K2 == Force([t \in 1..T |-> OdSoft(Sub(s.K[t], Mul(tau, Add(SymGrad(f, X[t], s.K[t]), Sym(OffDiag(DY(t)))))), Mul(tau, alpha))])
            E == Force(Sub(Mul(R(2), K2), s.K))
            Y2 == Force([q \in 1..NP |->
                    LET v == Add(s.Y[q], Mul(sg, Sub(E[pr[q][2]], E[pr[q][1]])))
                    IN Sub(v, Mul(sg, ProxPen(psi, EDiv(v, sg), RDiv(W[pr[q][1]][pr[q][2]], sg))))])
        IN [K |-> K2, Y |-> Y2, e |-> RMax(MaxAbs(Sub(K2, s.K)), IF NP = 0 THEN R(0) ELSE MaxAbs(Sub(Y2, s.Y)))]
  IN Iterate(Step, [K |-> [t \in 1..T |-> Z], Y |-> [q \in 1..NP |-> Z], e |-> R("inf")],
             LAMBDA s : RLe(s.e, R("1e-8")), 6000).K
(* The Poisson model regresses every variable on its own and merges the    *)
(* rows after each sweep.  A fixed point for the squared temporal penalty: *)
(* with pull A_t = mean_s (K_t - 2W_ts/rho (K_t - K_s)) the merged rows    *)
(* are K_t again.                                                          *)
PoisFix(X, K, alpha, W, rho) ==
  LET T == Len(X)
      d == Len(X[1][1])
      cp == T - 1
      Others(t) == {s \in 1..T : s # t}
      Pull(t) == IF T = 1 THEN Mul(R(0), K[t])
                 ELSE LET RECURSIVE A(_)
                          A(S) == IF S = {} THEN Mul(R(0), K[t])
                                  ELSE LET s == CHOOSE s \in S : TRUE
                                           w == IF s < t THEN W[s][t] ELSE W[t][s]
                                       IN Add(Sub(K[t], Mul(RDiv(Mul(R(2), w), rho), Sub(K[t], K[s]))), A(S \ {s}))
                      IN EDiv(A(Others(t)), R(cp))
      One(t) == LET P == Force(Pull(t))
                IN Union([r \in 1..d |-> RefRow(Row("poisson", X[t], r, alpha,
                     [j \in 1..(d - 1) |-> P[r][IF j < r THEN j ELSE j + 1]], Mul(rho, R(cp))))])
  IN Force([t \in 1..T |-> One(t)])
=============================================================================
