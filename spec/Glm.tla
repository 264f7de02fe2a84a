-------------------------------- MODULE Glm --------------------------------
(***************************************************************************)
(* Neighbourhood regressions of the generalised linear graphical models.   *)
(* Every variable r is regressed on the others with log-partition b:       *)
(*   loss_r(th) = mean_i ( b(eta_i) - x_ir eta_i ),  eta = X_{-r} th       *)
(*   gauss  b = eta^2/2     poisson b = exp(eta)    ising b = log 2cosh    *)
(* plus alpha |th|_1 and, in the temporal models, w/2 |th - A_r|^2.        *)
(***************************************************************************)
EXTENDS Penalty, TLC, FiniteSets
BVal(f, e) == CASE f = "gauss" -> Mul(R("0.5"), Mul(e, e))
                [] f = "poisson" -> EExp(e)
                [] f = "ising" -> Add(Abs(e), ELog(Add(R(1), EExp(Mul(R(-2), Abs(e))))))
BDer(f, e) == CASE f = "gauss" -> e
                [] f = "poisson" -> EExp(e)
                [] f = "ising" -> LET a == EExp(Mul(R(-2), Abs(e))) IN Mul(ESgn(e), EDiv(Sub(R(1), a), Add(R(1), a)))
\* column r of X, and X without it
Col(X, r) == [i \in 1..Len(X) |-> X[i][r]]
Drop(X, r) == [i \in 1..Len(X) |-> [j \in 1..(Len(X[1]) - 1) |-> X[i][IF j < r THEN j ELSE j + 1]]]
\* a one-variable problem
Row(f, X, r, alpha, A, w) == [f |-> f, X |-> Force(Drop(X, r)), XT |-> Force(MT(Drop(X, r))), y |-> Force(Col(X, r)), a |-> alpha, A |-> A, w |-> w]
RowSmooth(p, th) ==
  LET e == MVec(p.X, th)
  IN Add(RDiv(Sum(Sub(BVal(p.f, e), Mul(p.y, e))), R(Len(p.X))), Mul(Mul(R("0.5"), p.w), SumSq(Sub(th, p.A))))
RowGrad(p, th) == Add(EDiv(MVec(p.XT, Sub(BDer(p.f, MVec(p.X, th)), p.y)), R(Len(p.X))), Mul(p.w, Sub(th, p.A)))
RowObj(p, th) == Add(RowSmooth(p, th), Mul(p.a, SumAbs(th)))
Zeros(n) == [j \in 1..n |-> R(0)]

\* proximal gradient with a fixed step, as the estimators run it
FixedRun(grad(_), prox(_, _), x0, gamma, alpha, tol, n) ==
  LET Step(s) == LET y == Force(prox(Sub(s.x, Mul(gamma, grad(s.x))), Mul(alpha, gamma)))
                 IN [x |-> y, e |-> RSqrt(SumSq(Sub(y, s.x))), k |-> s.k + 1]
  IN Iterate(Step, [x |-> x0, e |-> R("inf"), k |-> 0], LAMBDA s : RLt(s.e, tol), n)

\* reference minimiser: proximal gradient with backtracking
RefRow(p) ==
  LET Try1(x, g, fx, L) == Soft(Sub(x, EDiv(g, L)), RDiv(p.a, L))
      Ok(x, g, fx, L) == LET y == Try1(x, g, fx, L)
                             dd == Sub(y, x)
                         IN RLe(RowSmooth(p, y), Add(Add(fx, Dot(g, dd)), Add(Mul(Mul(R("0.5"), L), SumSq(dd)), R("1e-14"))))
      RECURSIVE Grow(_, _, _, _)
      Grow(x, g, fx, L) == IF Ok(x, g, fx, L) THEN L ELSE Grow(x, g, fx, Mul(R(2), L))
      Step(s) == LET g == Force(RowGrad(p, s.x))
                     fx == RowSmooth(p, s.x)
                     L == Grow(s.x, g, fx, s.L)
                     y == Force(Try1(s.x, g, fx, L))
                 IN [x |-> y, L |-> RMax(Mul(R("0.95"), L), R("1e-3")), e |-> MaxAbs(Sub(y, s.x)), k |-> s.k + 1]
  IN Iterate(Step, [x |-> Zeros(Len(p.XT)), L |-> R(1), e |-> R("inf"), k |-> 0],
             LAMBDA s : RLe(s.e, R("1e-11")), 20000).x

\* rows to a symmetric matrix with unit diagonal
Entry(rows, i, j) == rows[i][IF j < i THEN j ELSE j - 1]
Union(rows) == LET d == Len(rows)
               IN [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN R(1) ELSE RDiv(Add(Entry(rows, i, j), Entry(rows, j, i)), R(2))]]
NonZero(x) == RLt(R(0), Abs(x))
Combine(how, rows) ==
  LET U == Union(rows)
      d == Len(rows)
  IN IF how = "union" THEN U
     ELSE [i \in 1..d |-> [j \in 1..d |-> IF i = j \/ (NonZero(Entry(rows, i, j)) /\ NonZero(Entry(rows, j, i))) THEN U[i][j] ELSE R(0)]]

(* the symmetric model: all rows share one symmetric matrix with zero      *)
(* diagonal; the gradient of the sum of the row losses is symmetrised      *)
OffEye(d) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN R(0) ELSE R(1)]]
SymGrad(f, X, K) ==
  LET n == Len(X)
      E == MMul(X, K)
      G == EDiv(MMul(MT(X), Sub(BDer(f, E), X)), R(n))
  IN Sym(OffDiag(G))
SymLoss(f, X, K) == LET E == MMul(X, K) IN RDiv(Sum(Sub(BVal(f, E), Mul(X, E))), R(Len(X)))
RefSym(f, X, alpha) ==
  LET L == MaxElt(EigVals(Sym(EDiv(MMul(MT(X), X), R(Len(X))))))
      g == RDiv(R(1), Add(L, R("1e-3")))
      d == Len(X[1])
  IN FixedRun(LAMBDA K : SymGrad(f, X, K), LAMBDA K, l : OdSoft(K, l), Mul(R(0), Eye(d)), g, alpha, R("1e-11"), 20000).x

(* l1 logistic regression as liblinear poses it: the intercept is an extra *)
(* penalised feature; labels are +-1                                       *)
RefLogit(X, r, alpha) ==
  LET XX == Force([i \in 1..Len(X) |-> Append(Drop(X, r)[i], R(1))])
      y == Force(Col(X, r))
      XT == Force(MT(XX))
      L == Add(R("1e-3"), Mul(R("0.25"), MaxElt(EigVals(Sym(MMul(XT, XX))))))
      Grad(w) == LET m == Mul(y, MVec(XX, w))
                 IN MVec(XT, Mul(Mul(R(-1), y), EDiv(R(1), Add(R(1), EExp(m)))))
      w == FixedRun(Grad, LAMBDA v, l : Soft(v, l), Zeros(Len(XT)), RDiv(R(1), L), alpha, R("1e-10"), 30000).x
  IN SubSeq(w, 1, Len(w) - 1)
=============================================================================
