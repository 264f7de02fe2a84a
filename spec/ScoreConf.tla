----------------------------- MODULE ScoreConf -----------------------------
(* Score of a fitted model and error norms.                                *)
EXTENDS TraceBase
Rows(X, y, cl) == [k \in 1..Cardinality({i \in 1..Len(X) : y[i] = cl}) |->
                     LET I == {i \in 1..Len(X) : y[i] = cl}
                         Kth(n) == CHOOSE i \in I : Cardinality({j \in I : j < i}) = n - 1
                     IN X[Kth(k)]]
Mean(X) == Mul(RDiv(R(1), R(Len(X))), [j \in 1..Len(X[1]) |-> Sum([i \in 1..Len(X) |-> X[i][j]])])
Second(X, mu) == LET Z == [i \in 1..Len(X) |-> Sub(X[i], mu)] IN Mul(RDiv(R(1), R(Len(X))), MMul(MT(Z), Z))
LL(S, K) == Sub(LogDet(Sym(K)), Inner(S, K))
Pi == R("3.14159265358979323846")

\* squared error norm of two matrices
Sq(A, B, norm) == LET E == Sub(A, B)
                  IN IF norm = "frobenius" THEN SumSq(E) ELSE LET sv == SingVals(E) IN Mul(MaxAbs(sv), MaxAbs(sv))
Fin(v, q) == IF q.squared THEN v ELSE RSqrt(v)
ErrN(A, B, q) == Fin(IF q.scaling THEN RDiv(Sq(A, B, q.norm), R(Len(A))) ELSE Sq(A, B, q.norm), q)
Upper(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF j > i THEN A[i][j] ELSE R(0)]]
UnitDiag(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> RDiv(A[i][j], RSqrt(Mul(A[i][i], A[j][j])))]]
N3(A, B, q) == LET prep(M) == LET u == IF q.unit THEN UnitDiag(M) ELSE M IN IF q.upper THEN Upper(u) ELSE u
                   d == Len(A[1])
                   ss == Sum([t \in 1..Len(A) |-> Sq(prep(A[t]), prep(B[t]), "frobenius")])
                   entries == IF q.upper THEN RDiv(R(Len(A) * d * (d - 1)), R(2)) ELSE R(Len(A) * d * d)
               IN Fin(IF q.scaling THEN RDiv(ss, entries) ELSE ss, q)
Tol == R("1e-7")
Cl(a, b) == Close(a, b, Tol, Tol)

NormClauses(c) ==
  LET q == c.inp
      o == c.out
      want == IF q.est = "norm"
              THEN ErrN(IF q.upper THEN Upper(q.A) ELSE q.A, IF q.upper THEN Upper(q.B) ELSE q.B, q)
              ELSE N3(q.A, q.B, q)
  IN << <<"error-norm", Cl(o.value, want), <<o.value, want>>>>,
        <<"self-zero", RLe(Abs(o.self), R("1e-12")), o.self>>,
        <<"inputs-untouched", Close(o.A, q.A, R(0), R(0)) /\ Close(o.B, q.B, R(0), R(0)), "">> >>
    \o (IF q.est = "norm3" THEN << <<"time-mean", Cl(o.time, RDiv(Sum([t \in 1..Len(q.A) |-> ErrN(q.A[t], q.B[t], q)]), R(Len(q.A)))), o.time>> >> ELSE <<>>)

Static(e) == e \in {"GL", "LGL"}
EstClauses(c) ==
  LET q == c.inp
      o == c.out
      T == Len(q.classes)
      d == Len(q.X[1])
      lat == q.est \in {"LGL", "LTGL", "KLTGL"}
      obs == IF lat THEN Sub(o.K, o.L) ELSE o.K
      zero == [j \in 1..d |-> R(0)]
      loc == Force([t \in 1..T |-> IF q.cent THEN zero ELSE Mean(Rows(q.X, q.y, q.classes[t]))])
      G == Force([t \in 1..T |-> Rows(q.Xt, q.yt, q.classes[t])])
      \* mean Gaussian log-likelihood per sample, all constants included
      ll == Force([t \in 1..T |-> RDiv(Sub(LL(Second(G[t], loc[t]), obs[t]), Mul(R(d), RLog(Mul(R(2), Pi)))), R(2))])
      want == IF Static(q.est) THEN ll[1]
              ELSE Sum([t \in 1..T |-> Mul(R(Len(G[t])), ll[t])])
      enorm == IF Static(q.est) THEN ErrN(o.cov[1], q.B[1], q)
               ELSE RDiv(Sum([t \in 1..T |-> ErrN(o.cov[t], q.B[t], q)]), R(T))
  IN << <<"observed-precision", Cl(o.obs, obs), "">>,
        <<"score", Cl(o.score, want), <<o.score, want>>>>,
        <<"error-norm", Cl(o.enorm, enorm), <<o.enorm, enorm>>>>,
        <<"score-repeatable", Cl(o.again, o.score), <<o.again, o.score>>>> >>
     \o (IF Static(q.est)
         THEN << <<"mahalanobis", Cl(o.mahal, [i \in 1..Len(q.Xt) |-> LET z == Sub(q.Xt[i], loc[1]) IN Dot(z, MVec(obs[1], z))]), "">> >>
         ELSE <<>>)
Clauses(c) == IF c.err # "" THEN <<NoErr(c)>>
              ELSE IF c.inp.est \in {"norm", "norm3"} THEN NormClauses(c) ELSE EstClauses(c)
Init == JInit
Next == JNext(Clauses)
=============================================================================
