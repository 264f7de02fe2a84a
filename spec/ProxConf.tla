------------------------------ MODULE ProxConf ------------------------------
(* Conformance of the proximal operators and norms.                        *)
EXTENDS Penalty, TraceBase

T8 == R("1e-8")
LamAt(q, t) == IF q.lam_kind = "pertime" THEN q.lamv[t] ELSE q.lamv[1]

\* y is the total-variation denoising of the entries of a along time: u[k], the running sum of a - y, ends at zero,
\* stays within beta and touches it with the sign of every jump of y
TvOptimal(a, y, beta, tol) ==
  LET T == Len(a)
      dd == 1..Len(a[1])
      e(t, i, j) == Sub(a[t][i][j], y[t][i][j])
      u(k, i, j) == Sum([t \in 1..k |-> e(t, i, j)])
      jump(k, i, j) == Sub(y[k + 1][i][j], y[k][i][j])
  IN \A i \in dd, j \in dd :
       /\ RLe(Abs(u(T, i, j)), tol)
       /\ \A k \in 1..(T - 1) :
            /\ RLe(Abs(u(k, i, j)), Add(beta, tol))
            /\ (RLe(Abs(jump(k, i, j)), tol)
                \/ RLe(Abs(Add(u(k, i, j), IF RLt(R(0), jump(k, i, j)) THEN beta ELSE Sub(R(0), beta))), tol))

Expected(q, o) ==
  LET a == q.a
      T == Len(a)
      TT == 1..T
      l == q.lamv[1]
      M == a[1]
      rows(X) == [i \in 1..Len(X) |-> VecSoft(X[i], l)]
      od(X, g) == OdSoft(X, g)
      \* minimiser of -logdet X + <A,X> + |X|^2/(2 g)
      ld(X, g) == Spectral(X, LAMBDA e : Mul(RDiv(g, R(2)), Sub(RSqrt(Add(Mul(e, e), RDiv(R(4), g))), e)))
      \* minimiser of -g logdet X + <A,X> + |X|^2/2
      ma(X, g) == Spectral(X, LAMBDA e : RDiv(Sub(RSqrt(Add(Mul(e, e), Mul(R(4), g))), e), R(2)))
      pen(p) == [t \in TT |-> ProxPen(p, a[t], LamAt(q, t))]
  IN CASE q.op = "soft" -> Soft(M, l)
       [] q.op = "soft_od" -> od(M, l)
       [] q.op = "soft_od_3d" -> [t \in TT |-> od(a[t], LamAt(q, t))]
       [] q.op = "soft_vec" -> rows(M)
       [] q.op = "soft_vec1" -> VecSoft(M[1], l)
       [] q.op \in {"fl_gen", "fl_loop", "fl_sym"} -> [t \in TT |-> od(o.tv[t], LamAt(q, t))]
       [] q.op \in {"block", "block_sym", "pair_l2"} -> pen("l2")
       [] q.op \in {"linf", "pair_linf"} -> pen("linf")
       [] q.op = "linf_1d" -> VecClip(M[1], l)
       [] q.op = "logdet" -> ld(M, l)
       [] q.op = "logdet_3d" -> [t \in TT |-> ld(a[t], LamAt(q, t))]
       [] q.op = "logdet_ma" -> ma(M, l)
       [] q.op = "trace" -> ProxTrace(M, l)
       [] q.op = "trace_3d" -> [t \in TT |-> ProxTrace(a[t], LamAt(q, t))]
       [] q.op \in {"laplacian", "pair_laplacian"} -> pen("laplacian")
       [] q.op = "pair_l1" -> pen("l1")
       [] q.op \in {"node", "pair_node"} ->
            \* the pair (Y1, Y2) minimising 4*lam*node(Y1-Y2)/... : mid point and shrunk difference
            LET e(t) == ProxPen("node", Sub(q.b[t], a[t]), Mul(R(4), LamAt(q, t)))
                m(t) == Add(a[t], q.b[t])
            IN <<[t \in TT |-> Mul(R("0.5"), Sub(m(t), e(t)))], [t \in TT |-> Mul(R("0.5"), Add(m(t), e(t)))]>>
       [] q.op = "norm_l1" -> SumAbs(a)
       [] q.op = "norm_l1_od" -> [t \in TT |-> OdNorm1(a[t])]
       [] q.op = "norm_matrix_l1" -> [t \in TT |-> SumAbs(a[t])]
       [] q.op = "norm_vector_p" -> \* sum over entries of the 2-norm along time
            LET d == Len(M) IN Sum([i \in 1..d |-> [j \in 1..d |-> Norm2([t \in TT |-> a[t][i][j]])]])

PairName(op) == CASE op = "pair_laplacian" -> "laplacian" [] op = "pair_l1" -> "l1" [] op = "pair_l2" -> "l2"
                  [] op = "pair_linf" -> "linf" [] OTHER -> "node"
IsPair(op) == op \in {"pair_laplacian", "pair_l1", "pair_l2", "pair_linf", "pair_node"}

Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE LET q == c.inp
           o == c.out
           e == Force(Expected(q, o))
           tol == IF q.op \in {"node", "pair_node"} THEN R("2e-5") ELSE T8
           free == q.op \notin {"node", "pair_node", "logdet", "logdet_3d", "logdet_ma"}
           scale == IF free THEN RMax(R("1e-12"), MaxAbs(q.a)) ELSE RMax(R(1), MaxAbs(q.a))
       IN << <<"finite", AllFinite(o.r), "">>,
             <<"value", SameShape(o.r, e) /\ Close(o.r, e, Mul(tol, scale), tol), IF SameShape(o.r, e) THEN MaxAbs(Sub(o.r, e)) ELSE "shape">>,
             <<"input-unchanged", o.a_after = q.a, "">>,
             <<"paired-norm", ~IsPair(q.op) \/ Close(o.norm, Pen(PairName(q.op), q.a[1]), Mul(R("1e-6"), scale), R("1e-6")),
                 IF IsPair(q.op) THEN <<o.norm, Pen(PairName(q.op), q.a[1])>> ELSE "">>,
             <<"total-variation", ~Has(o, "tv") \/ TvOptimal(q.a, o.tv, q.beta, Mul(Mul(R(Len(q.a)), R("1e-8")), Add(scale, q.beta))), "">>,
             <<"node-flag", ~IsPair(q.op) \/ o.node = (PairName(q.op) = "node"), "">> >>
Init == JInit
Next == JNext(Clauses)
=============================================================================
