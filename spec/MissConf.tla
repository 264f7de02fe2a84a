----------------------------- MODULE MissConf -----------------------------
EXTENDS Missing
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE
  LET q == c.inp
      o == c.out
      X == q.X
      M == q.M
      n == Len(X)
      d == Len(X[1])
      sc == MaxAbs(o.S)
      tol == Mul(R("2e-4"), Add(R(1), sc))
      same == Mul(R("1e-4"), Add(R(1), MaxAbs(o.Z)))
      mu == ColMeans(o.Z)
      none == \A i \in 1..n : \A j \in 1..d : ~M[i][j]
      m1 == Len(o.hist)
  IN IF ~(SameShape(o.Z, X) /\ Len(o.K) = d /\ Len(o.S) = d) THEN << <<"shape", FALSE, "">> >>
     ELSE << <<"finite", AllFinite(o.Z) /\ AllFinite(o.K) /\ AllFinite(o.S), "">>,
        <<"observed-entries-kept", \A i \in 1..n : \A j \in 1..d : M[i][j] \/ Close(o.Z[i][j], X[i][j], R("1e-12"), R("1e-12")), "">>,
        <<"precision-positive-definite", q.run = "converged" => (Close(o.K, MT(o.K), R("1e-8"), R("1e-8")) /\ RLt(R(0), MinElt(EigVals(Sym(o.K))))), o.K>>,
        <<"complete-data-covariance", none => Close(o.S, EDiv(MMul(MT(X), X), R(n)), R("1e-9"), R("1e-9")), o.S>>,
        <<"precision-optimal-for-covariance", q.run = "converged" => KKT(o.S, o.K, q.alpha, tol), Sub(o.S, MInv(o.K))>>,
        <<"fixed-point-imputation", q.run = "converged" => Close(Impute(o.K, mu, X, M), o.Z, same, R("1e-4")), "">>,
        <<"fixed-point-covariance", q.run = "converged" => Close(Second(o.K, o.Z, M), o.S, Mul(R("1e-4"), Add(R(1), sc)), R("1e-4")), "">>,
        \* the first E step starts from K = I, mu = 0: missing entries are imputed by zero
        <<"first-iteration", (q.run = "short" /\ q.iters = 1) => /\ Close(o.Z, Impute(Eye(d), Mul(R(0), mu), X, M), R("1e-9"), R("1e-9"))
                                                                /\ Close(o.S, Second(Eye(d), o.Z, M), R("1e-9"), R("1e-9")), o.Z>>,
        <<"history", ~q.hist \/ q.via = "cls" \/ (m1 = o.n_iter /\ \A k \in 1..m1 : o.hist[k].iteration = k - 1), m1>>,
        <<"history-likelihood", (q.hist /\ q.via = "fn") => Close(o.hist[m1].log_likelihood, LogLik(o.S, o.K), R("1e-8"), R("1e-8")), "">>,
        <<"history-difference", (q.hist /\ q.via = "fn") => \A k \in 2..m1 : Close(o.hist[k].difference, Sub(o.hist[k-1].log_likelihood, o.hist[k].log_likelihood), R("1e-10"), R("1e-8")), "">>,
        <<"stops-at-first-small-change", (q.hist /\ q.via = "fn") => /\ \A k \in 2..(m1 - 1) : RLe(q.tol, Abs(o.hist[k].difference))
                                                                   /\ (m1 < q.iters => RLt(Abs(o.hist[m1].difference), q.tol)), "">>,
        <<"warns-iff-not-converged", (q.hist /\ q.via = "fn") => (o.warned <=> ~(m1 >= 2 /\ RLt(Abs(o.hist[m1].difference), q.tol))), o.warned>>,
        <<"iterations", o.n_iter <= q.iters /\ (q.run = "short" /\ o.warned => o.n_iter = q.iters), o.n_iter>>,
        <<"function-and-class-agree", Has(o, "twin") => /\ Close(o.twin.K, o.K, R("1e-7"), R("1e-7")) /\ Close(o.twin.S, o.S, R("1e-7"), R("1e-7"))
                                                       /\ Close(o.twin.Z, o.Z, R("1e-7"), R("1e-7")), "">>,
        \* the M step is the graphical lasso of the expected covariance with the solver options given
        <<"m-step-options", Has(o, "step") => Close(o.step, o.K, R("1e-7"), R("1e-7")), "">>,
        <<"inputs-untouched", o.clean, "">> >>
Init == JInit
Next == JNext(Clauses)
=============================================================================
