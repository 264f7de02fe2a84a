----------------------------- MODULE BayesConf -----------------------------
EXTENDS Bayes
\* labels are encoded as ranks 1..T in sorted order
Run(q, o, X, y) ==
  LET T == q.T
      n == Len(o.test)
      stub == q.est \in {"stub", "stubcov", "stubloc", "pre"}
      ens == q.pd # "asis"
      P(g) == IF ens THEN Repaired(o.est_precision[g]) ELSE o.est_precision[g]
      S(g) == IF ens \/ ~o.est_has_cov THEN MInv(P(g)) ELSE o.est_cov[g]
      mu(g) == IF o.est_has_loc THEN o.est_loc[g] ELSE ClassMean(X, y, g)
      pi(g) == IF q.prior = "freq" THEN Freq(y, g) ELSE q.priors[g]
      M == [g \in 1..T |-> [mu |-> mu(g), S |-> S(g), pi |-> pi(g)]]
      J == [i \in 1..n |-> Joint(o.test[i], M)]
      dens == \A g \in 1..T : RLt(R(0), MinElt(EigVals(Sym(S(g)))))   \* every class has a density
      mag(i) == Add(R(1), MaxAbs(J[i]))
      best(i, g) == \A h \in 1..T : RLe(J[i][h], Add(J[i][g], Mul(R("1e-7"), mag(i))))
      hits == RSumSet(LAMBDA i : IF o.pred[i] = o.truth[i] THEN o.weight[i] ELSE R(0), 1..n)
      tot == Sum(o.weight)
  IN IF ~(Len(o.est_precision) = T /\ Len(o.pred) = n /\ Len(o.proba) = n)
     THEN << <<"shape", FALSE, "">> >>
     ELSE <<
       <<"classes", o.classes = [g \in 1..T |-> g], o.classes>>,
       <<"priors", \A g \in 1..T : Close(o.priors[g], pi(g), R("1e-12"), R("1e-12")), o.priors>>,
       <<"means", \A g \in 1..T : Close(o.means[g], mu(g), R("1e-9"), R("1e-9")), o.means>>,
       <<"training-labels-reach-the-estimator", q.est = "pre" \/ o.fit_y = [i \in 1..Len(y) |-> y[i] - 1] \/ ~stub, "">>,
       <<"location-of-estimator", (o.est_has_loc /\ ~stub /\ q.est # "TGLc") => \A g \in 1..T : Close(o.est_loc[g], ClassMean(X, y, g), R("1e-9"), R("1e-9")), "">>,
       <<"precision", \A g \in 1..T : Close(o.precision[g], P(g), R("1e-9"), R("1e-9")), "">>,
       <<"precision-positive-definite", \A g \in 1..T : ens => RLt(R(0), MinElt(EigVals(Sym(o.precision[g])))), "">>,
       <<"covariance", \A g \in 1..T : Close(o.covariance[g], S(g), Mul(R("1e-8"), Add(R(1), MaxAbs(S(g)))), R("1e-8")), "">>,
       <<"decision", dens => \A i \in 1..n :
            IF T = 2 THEN Len(o.decision[i]) = 1 /\ Close(o.decision[i][1], Sub(J[i][2], J[i][1]), Mul(R("1e-7"), mag(i)), R("1e-7"))
            ELSE Close(o.decision[i], J[i], Mul(R("1e-7"), mag(i)), R("1e-7")), <<o.decision[1], J[1]>> >>,
       <<"posterior", dens => \A i \in 1..n : Close(o.proba[i], Posterior(J[i]), R("1e-6"), R("1e-6")), "">>,
       <<"predicts-most-probable-class", dens => \A i \in 1..n : best(i, o.pred[i]), o.pred>>,
       <<"score-is-weighted-accuracy", Close(o.score, RDiv(hits, tot), R("1e-10"), R("1e-10")), <<o.score, hits, tot>> >>,
       <<"estimator-untouched", o.kept, "">>,
       <<"inputs-untouched", o.clean, "">> >>
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE FlatSeq([k \in 1..Len(c.out.runs) |-> Run(c.inp, c.out.runs[k], c.inp.X[k], c.inp.y[k])])
Init == JInit
Next == JNext(Clauses)
=============================================================================
