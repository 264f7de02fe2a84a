------------------------------- MODULE Bayes -------------------------------
(***************************************************************************)
(* Gaussian classification: class g has prior pi_g, mean mu_g, covariance   *)
(* S_g.  The classifier is Bayes' rule.                                     *)
(***************************************************************************)
EXTENDS TraceBase
LogJoint(x, mu, S, pi) ==
  LET z == Sub(x, mu)
  IN Add(Mul(R("-0.5"), Add(Dot(z, MVec(MInv(S), z)), LogDet(S))), RLog(pi))
Joint(x, M) == [g \in 1..Len(M) |-> LogJoint(x, M[g].mu, M[g].S, M[g].pi)]
Posterior(j) == LET m == MaxElt(j)
                    e == EExp(Sub(j, m))
                IN EDiv(e, Sum(e))
\* make a matrix positive definite by raising its diagonal, if it is not
Repaired(P) == IF RLt(R(0), MinElt(EigVals(Sym(P)))) THEN P
               ELSE [i \in 1..Len(P) |-> [j \in 1..Len(P) |-> IF i = j THEN Add(SumAbs(OffDiag(P)[i]), R("0.1")) ELSE P[i][j]]]
ClassMean(X, y, g) == LET I == SelectSeq([i \in 1..Len(X) |-> i], LAMBDA i : y[i] = g)
                      IN EDiv(FoldLeft(LAMBDA a, i : Add(a, X[i]), Mul(R(0), X[1]), I), R(Len(I)))
Freq(y, g) == RDiv(R(Cardinality({i \in 1..Len(y) : y[i] = g})), R(Len(y)))
=============================================================================
