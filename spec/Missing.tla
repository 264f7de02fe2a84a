------------------------------ MODULE Missing ------------------------------
(***************************************************************************)
(* Graphical lasso with missing entries: alternating expectation and        *)
(* maximisation.  State: precision K, mean mu, imputed matrix.              *)
(*   E step  a missing entry is replaced by its conditional expectation     *)
(*           given the observed entries of its row under N(mu, K^-1);       *)
(*           S = (1/n) sum_i E[x_i x_i']                                    *)
(*   M step  mu = column means of the completed data,                       *)
(*           K = graphical lasso of S                                       *)
(***************************************************************************)
EXTENDS TraceBase
\* positions of the missing / observed entries of a row
Idx(m, v) == SelectSeq([j \in 1..Len(m) |-> j], LAMBDA j : m[j] = v)
SubM(K, a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> K[a[i]][b[j]]]]
Pick(x, a) == [i \in 1..Len(a) |-> x[a[i]]]
Where(a, j) == CHOOSE i \in 1..Len(a) : a[i] = j
\* E[x_miss | x_obs]
CondMean(K, mu, x, m) ==
  LET a == Idx(m, TRUE)
      b == Idx(m, FALSE)
  IN IF Len(b) = 0 THEN mu
     ELSE Sub(Pick(mu, a), MVec(MInv(SubM(K, a, a)), MVec(SubM(K, a, b), Sub(Pick(x, b), Pick(mu, b)))))
Complete(K, mu, x, m) ==
  LET a == Idx(m, TRUE) IN IF Len(a) = 0 THEN x
  ELSE LET e == CondMean(K, mu, x, m) IN [j \in 1..Len(x) |-> IF m[j] THEN e[Where(a, j)] ELSE x[j]]
Impute(K, mu, X, M) == [i \in 1..Len(X) |-> Complete(K, mu, X[i], M[i])]
\* (1/n) sum_i E[x x'] for completed rows Z
Second(K, Z, M) ==
  LET d == Len(K)
      row(i) == LET a == Idx(M[i], TRUE)
                    C == IF Len(a) = 0 THEN <<>> ELSE MInv(SubM(K, a, a))
                IN [v \in 1..d |-> [w \in 1..d |->
                      Add(Mul(Z[i][v], Z[i][w]), IF M[i][v] /\ M[i][w] THEN C[Where(a, v)][Where(a, w)] ELSE R(0))]]
  IN EDiv(FoldLeft(LAMBDA acc, i : Add(acc, row(i)), Mul(R(0), Eye(d)), [i \in 1..Len(Z) |-> i]), R(Len(Z)))
ColMeans(Z) == EDiv(FoldLeft(LAMBDA acc, z : Add(acc, z), Mul(R(0), Z[1]), Z), R(Len(Z)))
\* optimality of K for  -logdet K + <S,K> + alpha |K|_od,1
KKT(S, K, alpha, tol) ==
  LET d == Len(K)
      G == Sub(S, MInv(K))
  IN \A i, j \in 1..d :
       IF i = j THEN RLe(Abs(G[i][j]), tol)
       ELSE IF RLe(Abs(K[i][j]), R("1e-9")) THEN RLe(Abs(G[i][j]), Add(alpha, tol))
       ELSE RLe(Abs(Add(G[i][j], Mul(alpha, R(RSign(K[i][j]))))), tol)
LogLik(S, K) == Sub(LogDet(K), Inner(S, K))
=============================================================================
