------------------------------ MODULE DistConf ------------------------------
EXTENDS Distrib
T9 == R("1e-8")
C9(a, b) == Close(a, b, T9, T9)
Wi(q, o) ==
  LET iw == q.dist = "iw"
      want == [k \in 1..Len(q.Xs) |-> IF iw THEN LogInvWishart(q.Xs[k], q.nu_, q.S) ELSE LogWishart(q.Xs[k], q.nu_, q.S)]
      D1 == R(q.p + 1)
      mean == IF iw THEN EDiv(q.S, Sub(q.nu_, D1)) ELSE Mul(q.nu_, q.S)
      mode == IF iw THEN EDiv(q.S, Add(q.nu_, D1)) ELSE Mul(Sub(q.nu_, D1), q.S)
  IN << <<"log-density", C9(o.ll, want), <<o.ll, want>> >>,
        <<"density", \A k \in 1..Len(q.Xs) : Close(o.l[k], RExp(want[k]), R("1e-300"), R("1e-6")), o.l>>,
        <<"mean", (iw /\ RLe(q.nu_, D1)) \/ C9(o.mean, mean), o.mean>>,
        <<"mode", IF iw \/ RLt(D1, q.nu_) THEN o.has_mode /\ C9(o.mode, mode) ELSE ~o.has_mode, o.mode>>,
        \* no point of the cone is denser than the mode
        <<"mode-is-densest", o.has_mode => \A k \in 1..Len(q.Xs) : RLe(o.ll[k], Add(o.ll_mode, T9)), "">>,
        <<"inputs-untouched", o.clean, "">> >>
W(q) == [mu |-> q.mu_, kappa |-> q.kappa_, nu |-> q.nu_, S |-> q.S]
Niw(q, o) ==
  LET w == W(q)
      u == Update(w, q.X)
      K == Len(q.ms)
      want(v) == [k \in 1..K |-> LogNIW(q.ms[k], q.Xs[k], v)]
      lik(k) == Sum([i \in 1..Len(q.X) |-> LogNormal(q.X[i], q.ms[k], q.Xs[k])])
      ev == LogEvidence(w, q.X)
      big == R("1e-7")
  IN << <<"log-density", C9(o.ll, want(w)), <<o.ll, want(w)>> >>,
        <<"density", \A k \in 1..K : Close(o.l[k], RExp(o.ll[k]), R("1e-300"), R("1e-6")), o.l>>,
        <<"mode", C9(o.mode_mu, q.mu_) /\ C9(o.mode_S, EDiv(q.S, Add(q.nu_, R(q.p + 2)))), o.mode_S>>,
        <<"mode-is-densest", \A k \in 1..K : RLe(o.ll[k], Add(LogNIW(q.mu_, EDiv(q.S, Add(q.nu_, R(q.p + 2))), w), T9)), "">>,
        <<"marginal-of-the-mean", C9(o.marg_mu, [k \in 1..K |-> LogMarginalMean(q.ms[k], w)]), o.marg_mu>>,
        <<"marginal-of-the-covariance", C9(o.marg_S, [k \in 1..K |-> LogInvWishart(q.Xs[k], q.nu_, q.S)]), o.marg_S>>,
        <<"predictive", C9(o.pred, [k \in 1..K |-> LogPredictive(q.ms[k], w)]), o.pred>>,
        <<"posterior-parameters", /\ Close(o.post.mu, u.mu, big, big) /\ Close(o.post.kappa, u.kappa, big, big)
                                  /\ Close(o.post.nu, u.nu, big, big) /\ Close(o.post.S, u.S, big, big), o.post>>,
        <<"posterior-density", Close(o.post_ll, want(u), R("1e-6"), R("1e-6")), o.post_ll>>,
        \* Bayes' rule: posterior = prior x likelihood / evidence, at every point
        <<"bayes-rule", \A k \in 1..K : Close(o.post_ll[k], Sub(Add(o.ll[k], lik(k)), ev), R("1e-6"), R("1e-6")), ev>>,
        <<"sequential-equals-batch", /\ Close(o.seq.mu, o.post.mu, big, big) /\ Close(o.seq.kappa, o.post.kappa, big, big)
                                     /\ Close(o.seq.nu, o.post.nu, big, big) /\ Close(o.seq.S, o.post.S, big, big), o.seq>>,
        <<"order-of-the-data", Close(o.rev.S, o.post.S, big, big) /\ Close(o.rev.mu, o.post.mu, big, big), "">>,
        <<"posterior-predictive", Close(o.post_pred, [k \in 1..K |-> LogPredictive(q.ms[k], u)], R("1e-6"), R("1e-6")), o.post_pred>>,
        <<"prior-untouched", o.clean, "">> >>
\* moments of a Wishart sample: mean nu S_ij, variance nu (S_ij^2 + S_ii S_jj)
WMoments(Ws, nu, S, six) ==
  LET n == Len(Ws)
      var(i, j) == Mul(nu, Add(Mul(S[i][j], S[i][j]), Mul(S[i][i], S[j][j])))
      dev(i, j) == Sub([k \in 1..n |-> Ws[k][i][j]], Mul(nu, S[i][j]))
  IN \A i, j \in 1..Len(S) : i <= j =>
       LET v == var(i, j)
           d == Force(dev(i, j))
       IN /\ RLe(Abs(RDiv(Sum(d), R(n))), Mul(six, RSqrt(RDiv(v, R(n)))))
          \* the kurtosis of a Wishart entry is below 3 + 12/nu
          /\ RLe(Abs(Sub(RDiv(SumSq(d), R(n)), v)), Mul(Mul(six, v), RSqrt(RDiv(Add(R(2), RDiv(R(12), nu)), R(n)))))
Samp(q, o) ==
  LET n == q.n
      pd == \A k \in 1..Len(o.Ss) : Close(o.Ss[k], MT(o.Ss[k]), T9, T9) /\ RLt(R(0), MinElt(EigVals(Sym(o.Ss[k]))))
      Ws == IF q.dist = "w" THEN o.Ss ELSE [k \in 1..Len(o.Ss) |-> Force(MInv(o.Ss[k]))]
      S == IF q.dist = "w" THEN q.S ELSE MInv(q.S)
      \* standardised means: kappa^1/2 Sigma^-1/2 (mu - mu0) has unit squared length per dimension
      z(k) == LET d == Sub(o.ms[k], q.mu_) IN Mul(q.kappa_, Dot(d, MVec(Ws[k], d)))
      zs == Sum([k \in 1..n |-> z(k)])
      dm(j) == RDiv(Sum([k \in 1..n |-> RDiv(Sub(o.ms[k][j], q.mu_[j]), RSqrt(RDiv(o.Ss[k][j][j], q.kappa_)))]), RSqrt(R(n)))
  IN << <<"as-many-as-asked", Len(o.Ss) = n /\ (q.dist = "niw" => Len(o.ms) = n), o.shape>>,
        <<"shape", o.shape_ok, o.shape>>,
        <<"positive-definite", pd, "">>,
        <<"moments", n < 100 \/ WMoments(Ws, q.nu_, S, R(6)), "">>,
        <<"means-spread", (q.dist = "niw" /\ n > 100) => RLe(Abs(Sub(zs, R(n * q.p))), Mul(R(6), RSqrt(R(2 * n * q.p)))), "">>,
        <<"means-centred", (q.dist = "niw" /\ n > 100) => \A j \in 1..q.p : RLe(Abs(dm(j)), R(6)), "">>,
        <<"not-constant", n < 2 \/ ~Close(o.Ss[1], o.Ss[2], R("1e-12"), R("1e-12")), "">> >>
Uni(q, o) ==
  IF q.fn = "stat"
  \* the lognormal with the returned parameters has the given mean and variance
  THEN LET s2 == Mul(o.sigma, o.sigma)
           mean == RExp(Add(o.mu, Half(s2)))
       IN << <<"mean", C9(mean, q.mean), mean>>, <<"variance", C9(Mul(Sub(RExp(s2), R(1)), Mul(mean, mean)), q.var), "">>, <<"positive", RLt(R(0), o.sigma), o.sigma>> >>
  ELSE << <<q.fn, \A k \in 1..Len(q.xs) : LET w == LogLognormal(q.xs[k], q.mu_, q.sigma) IN
             IF q.fn = "pdf" THEN Close(o.v[k], RExp(w), R("1e-290"), R("1e-7")) ELSE C9(o.v[k], w), o.v>> >>
Frob(q, o) ==
  LET n == R(q.p * q.p * q.T)
      want == Mul(R("-0.5"), Add(Mul(n, RLog(Mul(Mul(R(2), Pi), q.var))), RDiv(SumSq(Sub(q.S, q.D)), q.var)))
  IN << <<"frobenius-log-likelihood", C9(o.v, want), <<o.v, want>> >> >>
Mvn(q, o) ==
  LET want == Sum([t \in 1..q.T |-> Sum([i \in 1..Len(q.X[t]) |-> LogNormal(q.X[t][i], Mul(R(0), q.X[t][i]), q.C[t])])])
  IN << <<"temporal-log-likelihood", C9(o.v, want), <<o.v, want>> >> >>
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE LET k == c.inp.kind IN
       IF k = "wi" THEN Wi(c.inp, c.out) ELSE IF k = "niw" THEN Niw(c.inp, c.out) ELSE IF k = "samp" THEN Samp(c.inp, c.out)
       ELSE IF k = "uni" THEN Uni(c.inp, c.out) ELSE IF k = "frob" THEN Frob(c.inp, c.out) ELSE Mvn(c.inp, c.out)
Init == JInit
Next == JNext(Clauses)
=============================================================================
