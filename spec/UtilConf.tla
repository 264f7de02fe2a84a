----------------------------- MODULE UtilConf -----------------------------
(* Meaning of the helper functions of regain.utils and regain.math.        *)
EXTENDS TraceBase
Eq(a, b) == Close(a, b, R("1e-9"), R("1e-9"))
Is(name, got, want) == <<name, Eq(got, want), <<got, want>>>>
\* leaves of a tree [leaf, v, kids], left to right
RECURSIVE Leaves(_)
Leaves(t) == IF t.leaf THEN <<t.v>> ELSE FlatSeq([k \in 1..Len(t.kids) |-> Leaves(t.kids[k])])
\* position of (i,j), i <= j, in the row-wise upper triangle
Pos(d, i, j) == (i - 1) * d - ((i - 1) * (i - 2)) \div 2 + (j - i + 1)
Full(a, d) == [i \in 1..d |-> [j \in 1..d |-> IF i <= j THEN a[Pos(d, i, j)] ELSE a[Pos(d, j, i)]]]
RECURSIVE Chain(_, _)
Chain(fs, x) == IF fs = <<>> THEN x ELSE LET y == Chain(Tail(fs), x) IN Add(Mul(fs[1][1], y), fs[1][2])
\* rank: singular values above the numerical cut
Rank(A) == LET sv == SingVals(A)
               m == MaxAbs(sv)
           IN Cardinality({k \in 1..Len(sv) : RLt(Mul(m, R("1e-9")), sv[k])})
RECURSIVE Prod(_)
Prod(v) == IF v = <<>> THEN R(1) ELSE Mul(v[1], Prod(Tail(v)))
IAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE ISum(_)
ISum(q) == IF q = <<>> THEN 0 ELSE q[1] + ISum(Tail(q))
MinEig(A) == MinElt(EigVals(Sym(A)))
Off(A) == OffDiag(A)
Fixed(A) == LET d == Len(A) IN [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN Add(SumAbs(Off(A)[i]), R("0.1")) ELSE A[i][j]]]
\* the n entries of largest modulus (values are distinct)
TopN(A, n) == LET C == (1..Len(A)) \X (1..Len(A[1]))
                  Big(x) == Cardinality({y \in C : RLt(Abs(A[x[1]][x[2]]), Abs(A[y[1]][y[2]]))}) < n
              IN [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> IF Big(<<i, j>>) THEN A[i][j] ELSE R(0)]]
\* the k heaviest edges of a symmetric network with distinct positive weights
TopEdges(A, k) == LET d == Len(A)
                      E == {x \in (1..d) \X (1..d) : x[1] < x[2] /\ RLt(R(0), A[x[1]][x[2]])}
                      Keep(i, j) == LET x == IF i < j THEN <<i, j>> ELSE <<j, i>>
                                    IN x \in E /\ Cardinality({y \in E : RLt(A[x[1]][x[2]], A[y[1]][y[2]])}) < k
                  IN [i \in 1..d |-> [j \in 1..d |-> IF i # j /\ Keep(i, j) THEN A[i][j] ELSE R(0)]]
WithRowSums(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN Sum(A[i]) ELSE A[i][j]]]
SetDiag(A, v) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN v[i] ELSE A[i][j]]]
DiagWant(q) ==
  LET d == Len(q.d[1])
      c75 == [i \in 1..d |-> R("7.5")]
  IN CASE q.kind = "get2" -> DiagOf(q.A[1])
       [] q.kind = "get3" -> [t \in 1..Len(q.A) |-> DiagOf(q.A[t])]
       [] q.kind = "fill2" -> SetDiag(q.A[1], c75)
       [] q.kind = "fill3" -> [t \in 1..Len(q.A) |-> SetDiag(q.A[t], c75)]
       [] q.kind = "fillvec" -> [t \in 1..Len(q.A) |-> SetDiag(q.A[t], q.d[t])]
       [] q.kind = "create1" -> Diag(q.d[1])
       [] q.kind = "create2" -> [t \in 1..Len(q.d) |-> Diag(q.d[t])]
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE
  LET q == c.inp
      o == c.out
      f == q.fn
  IN CASE f = "flatten" -> << <<"flatten", o.v = Leaves(q.tree), o.v>> >>
       [] f = "upper" -> << Is("upper-to-full", o.v, Full(q.a, q.d)) >>
       [] f = "compose" -> << Is("compose", o.v, Chain(q.fs, q.x)) >>
       [] f = "to2d" -> << <<"stacked", Eq(o.X, FlatSeq(q.data)), "">>,
                           <<"labels", o.y = FlatSeq([k \in 1..Len(q.data) |-> [i \in 1..Len(q.data[k]) |-> k - 1]]), o.y>> >>
       [] f = "rank" -> << Is("error-rank", o.v, RDiv(R(ISum([k \in 1..Len(q.A) |-> IAbs(Rank(q.A[k]) - Rank(q.B[k]))])), R(Len(q.A)))) >>
       [] f = "normalise" -> << Is("unit-diagonal", o.v, [i \in 1..Len(q.A) |-> [j \in 1..Len(q.A) |-> RDiv(q.A[i][j], RSqrt(Mul(q.A[i][i], q.A[j][j])))]]) >>
       [] f = "posdef" ->
            LET pd == \A k \in 1..Len(q.A) : RLt(R("1e-8"), MinEig(q.A[k]))
                psd == RLe(R("-1e-8"), MinEig(q.A[1]))
            IN << <<"positive-definite", o.all = pd, <<o.all, pd>>>>,
                  <<"is-pos-def", Len(q.A) > 1 \/ (o.chol = pd /\ o.eig = pd), <<o.chol, o.eig, pd>>>>,
                  <<"is-pos-semidef", Len(q.A) > 1 \/ o.semi = psd, <<o.semi, psd>>>>,
                  <<"inputs-untouched", o.clean, "">> >>
       [] f = "ensure" -> << <<"repaired", \A k \in 1..Len(q.A) : RLt(R(0), MinEig(o.v[k])), o.v>>,
                            <<"only-when-needed", \A k \in 1..Len(q.A) : IF RLt(R("1e-9"), MinEig(q.A[k])) THEN Eq(o.v[k], q.A[k]) ELSE Eq(o.v[k], Fixed(q.A[k])), o.v>> >>
       [] f = "threshold" -> << Is("threshold", o.v, [i \in 1..Len(q.A) |-> [j \in 1..Len(q.A[1]) |->
                                    IF (q.hasmin /\ RLt(q.A[i][j], q.min)) \/ (q.hasmax /\ RLt(q.max, q.A[i][j])) THEN q.new ELSE q.A[i][j]]]),
                                <<"inputs-untouched", o.clean, "">> >>
       [] f = "topn" -> << Is("retain-top-n", o.v, TopN(q.A, q.m)), <<"inputs-untouched", o.clean, "">> >>
       [] f = "pickle" -> << <<"round-trip", o.same, "">>, <<"file", o.files = q.files, o.files>> >>
       [] f = "network" -> << Is("round-trip", o.v, IF q.fill THEN WithRowSums(TopEdges(q.A, q.keep)) ELSE TopEdges(q.A, q.keep)),
                              <<"labels", o.index = q.labels /\ o.columns = q.labels, o.index>> >>
       [] f = "diag" -> << Is("diagonal", o.v, DiagWant(q)) >>
       [] f = "ending" -> << <<"ending", o.v = q.want, o.v>> >>
       [] f = "entropy" ->
            LET X == q.A
                n == Len(X)
                k == Len(X[1])
                cs == [j \in 1..k |-> Sum([i \in 1..n |-> X[i][j]])]
                P(i, j) == RDiv(X[i][j], cs[j])
                H(j) == Sum([i \in 1..n |-> IF RLt(R(0), P(i, j)) THEN Mul(P(i, j), RLog(P(i, j))) ELSE R(0)])
            IN << Is("log-entropy", o.v, [i \in 1..n |-> [j \in 1..k |-> Mul(Add(R(1), RDiv(H(j), RLog(R(n + 1)))), RLog(Add(R(1), X[i][j])))]]) >>
       [] f = "stdout" -> << <<"silent", o.text = "", o.text>>, <<"restored", o.restored, "">>, <<"exception-passes", o.raised = (q.kind = "raise"), "">> >>
       [] f = "logdet" ->
            LET ev(k) == EigVals(Sym(q.A[k]))
                det(k) == Prod(ev(k))
                pos(k) == RLt(R("1e-9"), det(k))
            IN << <<"log-determinant", Len(o.v) = Len(q.A) /\ \A k \in 1..Len(q.A) : IF pos(k) THEN ~o.neg[k] /\ Eq(o.v[k], RLog(det(k))) ELSE o.neg[k], o.v>> >>
       [] f = "gamma" -> << Is("update-gamma", o.v, RMax(IF q.it % 20 = 0 THEN RDiv(q.g, R(2)) ELSE q.g, q.eps)) >>
       [] f = "topidx" ->
            LET C == (1..Len(q.A)) \X (1..Len(q.A[1]))
            IN << <<"top-n-indexes", Len(o.v) = q.m /\ {o.v[k] : k \in 1..Len(o.v)} =
                     {x \in C : Cardinality({y \in C : RLt(q.A[x[1]][x[2]], q.A[y[1]][y[2]])}) < q.m}, o.v>>,
                  <<"inputs-untouched", o.clean, "">> >>
       [] f = "topics" ->
            LET col(t) == [i \in 1..Len(q.W) |-> q.W[i][t]]
                Order(v, n) == [r \in 1..n |-> CHOOSE i \in 1..Len(v) : Cardinality({k \in 1..Len(v) : RLt(v[i], v[k])}) = r - 1]
                nt == Len(q.H)
            IN << <<"words", o.words = [t \in 1..nt |-> Order(q.H[t], q.nw)], o.words>>,
                  <<"weights", \A t \in 1..nt : Close(o.values[t], [r \in 1..q.nw |-> q.H[t][Order(q.H[t], q.nw)[r]]], R("6e-4"), R("1e-9")), o.values>>,
                  <<"headings", o.heads = nt, o.heads>>,
                  <<"documents", o.docs = (IF q.kind = "docs" THEN FlatSeq([t \in 1..nt |-> Order(col(t), q.nd)]) ELSE <<>>), o.docs>> >>
       [] f = "logger" -> << <<"file", o.file = q.file, o.file>>, <<"logged", o.logged = <<"hello", "trouble">>, o.logged>>,
                             <<"shown", o.shown = (IF q.kind = "quiet" THEN <<"trouble">> ELSE <<"hello", "trouble">>), o.shown>> >>
       [] f = "loader" -> << <<"parts", o.parts = (IF q.kind = "foodgroups" THEN 3 ELSE IF q.kind = "sectors" THEN 2 ELSE 1), o.parts>>,
                             <<"table", o.columns /\ o.index /\ o.values, <<o.columns, o.index, o.values>>>>, <<"groups", o.groups, "">> >>
       [] f = "heuristic" -> << Is("alpha-heuristic", o.v,
             LET m == MaxElt([k \in 1..Len(q.A) |-> Mul(MaxElt(DiagOf(q.A[k])), MaxElt(DiagOf(q.A[k])))])
                 nu == q.ns - 2
                 \* density of Student's t with nu degrees of freedom at gamma, doubled
                 lg == Sub(RLgamma(RDiv(R(nu + 1), R(2))), RLgamma(RDiv(R(nu), R(2))))
                 dens == Mul(RDiv(RExp(lg), RSqrt(Mul(R(nu), R("3.14159265358979323846")))),
                             RPow(Add(R(1), RDiv(Mul(q.g, q.g), R(nu))), RDiv(R(-(nu + 1)), R(2))))
                 t == Mul(R(2), dens)
             IN RDiv(Mul(t, m), RSqrt(Add(R(nu), Mul(t, t))))) >>
Init == JInit
Next == JNext(Clauses)
=============================================================================
