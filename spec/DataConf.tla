----------------------------- MODULE DataConf -----------------------------
(***************************************************************************)
(* The synthetic Gaussian model behind make_dataset: at every time t the   *)
(* observed precision is  obs_t = theta_t - ell_t  (marginalisation of the *)
(* latent variables), symmetric positive definite, and class t of the data *)
(* is a sample of N(0, obs_t^-1).                                           *)
(***************************************************************************)
EXTENDS TraceBase
Eq(a, b) == Close(a, b, R("1e-9"), R("1e-9"))
SymM(A) == Close(A, MT(A), R("1e-9"), R("1e-9"))
\* off-diagonal pairs on which two matrices differ
Diff(A, B) == {x \in (1..Len(A)) \X (1..Len(A)) : x[1] < x[2] /\ RLt(R("1e-12"), Abs(Sub(A[x[1]][x[2]], B[x[1]][x[2]])))}
Supp(A) == {x \in (1..Len(A)) \X (1..Len(A)) : x[1] < x[2] /\ RLt(R("1e-12"), Abs(A[x[1]][x[2]]))}
Rank(A) == LET sv == SingVals(A) IN Cardinality({k \in 1..Len(sv) : RLt(R("1e-9"), sv[k])})
Root(A) == LET V == EigVecs(Sym(A))
               w == EigVals(Sym(A))
           IN MMul(V, MMul(Diag(ESqrt(w)), MT(V)))
Ceil20(d) == (d + 19) \div 20
Has3(a, n1, n2, n3) == Len(a) = n1 /\ \A t \in 1..n1 : Len(a[t]) = n2 /\ \A i \in 1..n2 : Len(a[t][i]) = n3
Latent == {"none", "fixed_sparsity", "gp", "fede", "my", "sincos", "my-direct", "mys-direct"}      \* modes where ell has rank at most n_dim_lat
Clauses(c) ==
  LET q == c.inp
      o == c.out
  IN IF q.bad # "" THEN << <<"unknown-option-refused", c.err = "" /\ o.refused, c.err>> >>
     ELSE IF c.err # "" THEN <<NoErr(c)>>
     ELSE
  LET d == q.d
      n == q.n
      T == q.T
      th == o.theta
      ob == o.obs
      el == o.ell
      shape == Has3(th, T, d, d) /\ Has3(ob, T, d, d) /\ Has3(el, T, d, d)
      \* sampling error of an entry of the whitened covariance: six standard deviations
      tol == Mul(R(6), RSqrt(RDiv(R(2), R(n))))
  IN << <<"data-shape", o.shape = IF q.ax = "last" THEN <<n, d, T>> ELSE <<T, n, d>>, o.shape>>,
        <<"stacked", o.stacked /\ o.xshape = <<T * n, d>>, o.xshape>>,
        <<"labels", o.y = FlatSeq([t \in 1..T |-> [i \in 1..n |-> t - 1]]), "">>,
        <<"model-shape", shape, "">> >>
     \o (IF ~shape THEN <<>> ELSE
     << <<"observed = theta - ell", \A t \in 1..T : Eq(ob[t], Sub(th[t], el[t])), "">>,
        <<"symmetric", \A t \in 1..T : SymM(th[t]) /\ SymM(ob[t]) /\ SymM(el[t]), "">>,
        <<"observed-positive-definite", \A t \in 1..T : RLt(R(0), MinElt(EigVals(Sym(ob[t])))), [t \in 1..T |-> MinElt(EigVals(Sym(ob[t])))]>>,
        <<"ell-psd", \A t \in 1..T : RLe(R("-1e-9"), MinElt(EigVals(Sym(el[t])))), "">>,
        <<"ell-rank", q.mode \in Latent => \A t \in 1..T : IF q.mode = "none" THEN Rank(el[t]) = q.h ELSE Rank(el[t]) <= q.h, "">>,
        <<"ell-fixed", (q.mode \in {"fixed_sparsity", "gp", "sincos", "my", "ma", "mak", "my-direct"} \/ q.ue = "fixed") => \A t \in 1..T : Eq(el[t], el[1]), "">>,
        <<"l1-step", (q.mode = "none" /\ q.ut = "l1") => \A t \in 2..T : Cardinality(Diff(th[t], th[t-1])) <= (IF q.prop THEN Ceil20(d) ELSE 1), "">>,
        <<"l2-step", (q.mode = "none" /\ q.ut = "l2") => \A t \in 2..T :
              RLe(RSqrt(SumSq(OffDiag(Sub(th[t], th[t-1])))), Mul(R("3.001"), q.epsilon)), "">>,
        <<"sparsity-kept", ((q.mode = "none" /\ q.ut = "l2" /\ q.keep)) => \A t \in 2..T : Supp(th[t]) \subseteq Supp(th[1]), "">>,
        <<"fixed-sparsity", q.mode = "fixed_sparsity" => \A t \in 2..T : Supp(th[t]) \subseteq Supp(th[t-1]), "">>,
        <<"given-function", q.mode = "func" => Eq(th, q.fth) /\ Eq(el, q.fel), "">>,
        <<"unit-diagonal", q.mode = "sinnorm" => \A t \in 1..T : Eq(DiagOf(th[t]), [i \in 1..d |-> R(1)]), "">>,
        <<"sample-covariance", Has(o, "S") => \A t \in 1..T : LET W == Root(ob[t]) IN Close(MMul(W, MMul(o.S[t], W)), Eye(d), tol, R(0)), "">>,
        <<"sample-mean", Has(o, "S") => \A t \in 1..T : LET W == Root(ob[t]) IN Close(MVec(W, o.m[t]), [i \in 1..d |-> R(0)], Mul(R(6), RSqrt(RDiv(R(1), R(n)))), R(0)), "">>,
        <<"classes-independent", (Has(o, "S") /\ T > 1) => Close(MMul(Root(ob[1]), MMul(o.C, Root(ob[2]))), Mul(R(0), Eye(d)), tol, R(0)), "">>,
        <<"covariance", Has(o, "cov") => \A t \in 1..T : Close(MMul(o.cov[t], ob[t]), Eye(d), R("1e-7"), R("1e-7")), "">>,
        \* the graphs of Meinshausen and Yuan: unit diagonal, one common edge weight
        <<"edge-weight", q.mode \in {"my", "my-direct", "mys-direct"} => \A t \in 1..T : \A i, j \in 1..d :
              IF i = j THEN Eq(th[t][i][j], R(1)) ELSE Eq(th[t][i][j], R(0)) \/ Eq(th[t][i][j], R("0.245")), "">>,
        <<"finite", o.finite, "">>,
        <<"reproducible", o.same, "">> >>)
Init == JInit
Next == JNext(Clauses)
=============================================================================
