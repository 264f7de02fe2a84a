------------------------------ MODULE Distrib ------------------------------
(***************************************************************************)
(* Distributions over covariances: Wishart(nu, S), inverse Wishart(nu, S),  *)
(* normal-inverse-Wishart(mu, kappa, nu, S) with its conjugate update, and  *)
(* the univariate lognormal.                                                *)
(***************************************************************************)
EXTENDS TraceBase
Pi == R("3.14159265358979323846")
Log2Pi == RLog(Mul(R(2), Pi))
MultiLgamma(a, p) == Add(Mul(RDiv(R(p * (p - 1)), R(4)), RLog(Pi)), Sum([j \in 1..p |-> RLgamma(Sub(a, RDiv(R(j - 1), R(2))))]))
Half(x) == Mul(R("0.5"), x)
LogNormC(nu, p) == Add(Mul(Half(Mul(nu, R(p))), RLog(R(2))), MultiLgamma(Half(nu), p))
LogWishart(X, nu, S) ==
  LET p == Len(S)
  IN Sub(Sub(Half(Sub(Mul(Sub(nu, R(p + 1)), LogDet(X)), Inner(X, MInv(S)))), Half(Mul(nu, LogDet(S)))), LogNormC(nu, p))
LogInvWishart(X, nu, S) ==
  LET p == Len(S)
  IN Sub(Half(Sub(Sub(Mul(nu, LogDet(S)), Mul(Add(nu, R(p + 1)), LogDet(X))), Inner(S, MInv(X)))), LogNormC(nu, p))
LogNormal(x, m, C) ==
  LET d == Sub(x, m) IN Mul(R("-0.5"), Add(Add(Mul(R(Len(x)), Log2Pi), LogDet(C)), Dot(d, MVec(MInv(C), d))))
LogNIW(m, X, w) == Add(LogInvWishart(X, w.nu, w.S), LogNormal(m, w.mu, EDiv(X, w.kappa)))
LogStudent(x, df, m, S) ==
  LET p == Len(x)
      d == Sub(x, m)
      q == Dot(d, MVec(MInv(S), d))
      h == Half(Add(df, R(p)))
  IN Sub(Sub(Sub(Sub(RLgamma(h), RLgamma(Half(df))), Half(Mul(R(p), RLog(Mul(df, Pi))))), Half(LogDet(S))), Mul(h, RLog(Add(R(1), RDiv(q, df)))))
Outer(a, b) == [i \in 1..Len(a) |-> Mul(a[i], b)]
MeanOf(X) == EDiv(FoldLeft(LAMBDA a, x : Add(a, x), Mul(R(0), X[1]), X), R(Len(X)))
\* conjugate update by the observations X
Update(w, X) ==
  LET n == R(Len(X))
      m == MeanOf(X)
      Z == [i \in 1..Len(X) |-> Sub(X[i], m)]
      k == Add(w.kappa, n)
      d == Sub(m, w.mu)
  IN [mu |-> Force(EDiv(Add(Mul(w.kappa, w.mu), Mul(n, m)), k)), kappa |-> k, nu |-> Add(w.nu, n),
      S |-> Force(Add(Add(w.S, MMul(MT(Z), Z)), Mul(RDiv(Mul(w.kappa, n), k), Outer(d, d))))]
Df(w) == Sub(w.nu, R(Len(w.S) - 1))
LogMarginalMean(x, w) == LogStudent(x, Df(w), w.mu, EDiv(w.S, Mul(w.kappa, Df(w))))
LogPredictive(x, w) == LogStudent(x, Df(w), w.mu, Mul(RDiv(Add(w.kappa, R(1)), Mul(w.kappa, Df(w))), w.S))
\* evidence of X as the product of its one-step predictions
RECURSIVE LogEvidence(_, _)
LogEvidence(w, X) == IF X = <<>> THEN R(0) ELSE Add(LogPredictive(X[1], w), LogEvidence(Update(w, <<X[1]>>), Tail(X)))
LogLognormal(x, m, s) == LET z == RDiv(Sub(RLog(x), m), s) IN Sub(Mul(R("-0.5"), Add(Mul(z, z), Log2Pi)), RLog(Mul(x, s)))
=============================================================================
