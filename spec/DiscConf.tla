----------------------------- MODULE DiscConf -----------------------------
(***************************************************************************)
(* Ising model:   P(x) proportional to exp(beta*(sum_i h_i x_i +            *)
(*                sum_{i<j} theta_ij x_i x_j)),  x_i in {lo, hi}            *)
(* Local Poisson model:  X_i = Y_i + sum_{j~i} Y_ij + E_i  with independent  *)
(* Poisson variables, so  E X_i = Var X_i = lam (1 + deg i) + noise  and     *)
(* Cov(X_i, X_j) = lam theta_ij.                                             *)
(* Evolving networks: symmetric, without self loops, at most `change' edges  *)
(* differ between consecutive times.                                         *)
(***************************************************************************)
EXTENDS TraceBase
Eq(a, b) == Close(a, b, R("1e-9"), R("1e-9"))
Has2(a, n1, n2) == Len(a) = n1 /\ \A i \in 1..n1 : Len(a[i]) = n2
Pairs(d) == {x \in (1..d) \X (1..d) : x[1] < x[2]}
Neq(a, b) == ~ Eq(a, b)
Diff(A, B) == {x \in Pairs(Len(A)) : Neq(A[x[1]][x[2]], B[x[1]][x[2]])}
SymM(A) == Eq(A, MT(A))
NoLoops(A) == \A i \in 1..Len(A) : Eq(A[i][i], R(0))
Among(A, vals) == \A i \in 1..Len(A), j \in 1..Len(A[1]) : \E v \in vals : Eq(A[i][j], R(v))
Logit(h, J, x) == Add(Dot(h, x), RSumSet(LAMBDA p : Mul(J[p[1]][p[2]], Mul(x[p[1]], x[p[2]])), Pairs(Len(x))))
Energy(h, J, x) == Mul(R(-1), Logit(h, J, x))
Put(x, i, v) == [x EXCEPT ![i] = v]
\* probability that x_i is the second response, given the others
Plus(h, J, x, i, beta, lo, hi) ==
  LET e == Mul(beta, Sub(Logit(h, J, Put(x, i, hi)), Logit(h, J, Put(x, i, lo)))) IN RDiv(R(1), Add(R(1), RExp(Mul(R(-1), e))))
States(p, lo, hi) == [1..p -> {lo, hi}]
AsSeq(f, p) == [i \in 1..p |-> f[i]]
\* completions of a state in which the positions of U are undetermined
Completions(x, U, lo, hi) == {[i \in 1..Len(x) |-> IF i \in U THEN g[i] ELSE x[i]] : g \in [U -> {lo, hi}]}
RMinSet(f(_), S) == LET c == CHOOSE a \in S : \A b \in S : RLe(f(a), f(b)) IN f(c)
RMaxSet(f(_), S) == LET c == CHOOSE a \in S : \A b \in S : RLe(f(b), f(a)) IN f(c)
Stack(q, o, d) ==
  << <<"data-shape", o.shape = IF q.ax = "last" THEN <<q.n, d, q.T>> ELSE <<q.T, q.n, d>>, o.shape>>,
     <<"stacked", o.stacked, "">>,
     <<"labels", o.y = FlatSeq([t \in 1..q.T |-> [i \in 1..q.n |-> t - 1]]), o.y>> >>
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE
  LET q == c.inp
      o == c.out
      d == q.d
      f == q.fn
  IN CASE f \in {"ising", "poisson"} ->
          Stack(q, o, d) \o
          << <<"networks", Len(o.theta) = q.T /\ \A t \in 1..q.T : Has2(o.theta[t], d, d) /\ SymM(o.theta[t]) /\ NoLoops(o.theta[t]), o.theta>>,
             <<"weights", \A t \in 1..Len(o.theta) : Among(o.theta[t], IF f = "ising" THEN {-1, 0, 1} ELSE {0, 1}), o.theta>>,
             <<"step", \A t \in 2..Len(o.theta) : Cardinality(Diff(o.theta[t], o.theta[t-1])) <= q.change, o.theta>>,
             <<"poisson-networks-only-lose-edges", f = "poisson" => \A t \in 2..Len(o.theta) : \A x \in Diff(o.theta[t], o.theta[t-1]) : Eq(o.theta[t][x[1]][x[2]], R(0)), o.theta>>,
             <<"values", IF f = "ising" THEN Among(o.X, {-1, 1}) ELSE o.counts, "">>,
             <<"reproducible", o.same, "">> >>
       [] f = "multi" ->
          LET B == o.binary
              nz == 2 * Cardinality({x \in Pairs(d) : Neq(B[1][x[1]][x[2]], R(0))})
              most == ((d * (d - 1) - nz) \div 10) + (nz \div 10)
          IN << <<"binary", Len(B) = q.T /\ \A t \in 1..q.T : Has2(B[t], d, d) /\ SymM(B[t]) /\ NoLoops(B[t]) /\ Among(B[t], {0, 1}), B>>,
                <<"classes-share-structure", \A t \in 2..Len(B) : Cardinality(Diff(B[t], B[1])) <= most, <<B, most>>>>,
                <<"parts", {o.parts[k].name : k \in 1..Len(o.parts)} = (IF q.kind = "all" THEN {"gaussian", "ising", "poisson"} ELSE {q.kind}), "">> >>
             \o FlatSeq([k \in 1..Len(o.parts) |->
                  LET p == o.parts[k]
                      Edge(t, i, j) == i # j /\ Neq(B[t][i][j], R(0))
                  IN Stack(q, p, d) \o
                     << <<"symmetric", \A t \in 1..q.T : SymM(p.theta[t]), p.theta>>,
                        <<"support", \A t \in 1..q.T : \A i, j \in 1..d : i # j => (Edge(t, i, j) <=> Neq(p.theta[t][i][j], R(0))), p.theta>>,
                        <<"shared-weights", \A t \in 2..q.T : \A i, j \in 1..d : (Edge(t, i, j) /\ Edge(1, i, j)) => Eq(p.theta[t][i][j], p.theta[1][i][j]), p.theta>>,
                        <<"weights", CASE p.name = "gaussian" -> \A t \in 1..q.T : RLt(R(0), MinElt(EigVals(Sym(p.theta[t]))))
                                       [] p.name = "ising" -> \A t \in 1..q.T : Among(OffDiag(p.theta[t]), {-1, 0, 1})
                                       [] OTHER -> \A t \in 1..q.T : Eq(OffDiag(p.theta[t]), B[t]), p.theta>>,
                        <<"values", CASE p.name = "ising" -> Among(p.X, {-1, 1}) [] p.name = "poisson" -> p.counts [] OTHER -> TRUE, "">> >>])
             \o << <<"reproducible", o.same, "">> >>
       [] f = "energy" -> << <<"hamiltonian", Eq(o.v, Energy(q.h, q.J, q.x)), <<o.v, Energy(q.h, q.J, q.x)>>>>, <<"inputs-untouched", o.clean, "">> >>
       [] f = "pplus" -> << <<"conditional", Eq(o.v, Plus(q.h, q.J, q.x, q.i, q.beta, q.lo, q.hi)), o.v>>, <<"inputs-untouched", o.clean, "">> >>
       [] f = "bracket" ->
          LET U == {i \in 1..d : q.unknown[i]}
              P(y) == Plus(q.h, q.J, y, q.i, q.beta, q.lo, q.hi)
              C == Completions(q.x, U, q.lo, q.hi)
          IN << <<"bounds", Eq(o.v[1], RMinSet(P, C)) /\ Eq(o.v[2], RMaxSet(P, C)), o.v>>, <<"inputs-untouched", o.clean, "">> >>
       [] f = "sampler" ->
          LET ok(g) == \A i \in 1..d : (q.fixed[i] => Eq(g[i], q.val[i]))
              S == {g \in States(d, q.lo, q.hi) : ok(g)}
              w(g) == RExp(Mul(q.beta, Logit(q.h, q.J, AsSeq(g, d))))
              Z == RSumSet(w, S)
              n == R(q.n)
              cnt(g) == LET k == {k \in 1..Len(o.states) : \A i \in 1..d : Eq(o.states[k][i], g[i])} IN IF k = {} THEN R(0) ELSE R(o.counts[CHOOSE x \in k : TRUE])
              near(g) == LET p == RDiv(w(g), Z) IN RLe(Abs(Sub(cnt(g), Mul(n, p))), Add(R(3), Mul(R(6), RSqrt(Mul(n, Mul(p, Sub(R(1), p)))))))
          IN << <<"shape", o.shape = <<q.n, d>>, o.shape>>,
                <<"states", \A k \in 1..Len(o.states) : \E g \in S : \A i \in 1..d : Eq(o.states[k][i], g[i]), o.states>>,
                <<"frequencies", \A g \in S : near(g), <<o.states, o.counts>>>> >>
       [] f = "counts" ->
          LET n == R(q.n)
              \* six standard errors, estimated from the sample's fourth moments
              tol(v) == Mul(R(6), RSqrt(RDiv(v, n)))
          IN << <<"shape", o.shape = <<q.n, d>>, o.shape>>, <<"counts", o.counts, "">> >> \o
             (IF q.kind = "LPGM" THEN
                LET deg(i) == RSumSet(LAMBDA j : q.J[i][j], 1..d)
                    mean(i) == Add(Mul(q.lam, Add(R(1), deg(i))), q.noise)
                IN << <<"mean", \A i \in 1..d : RLe(Abs(Sub(o.mean[i], mean(i))), tol(mean(i))), o.mean>>,
                      <<"variance", \A i \in 1..d : RLe(Abs(Sub(o.cov[i][i], mean(i))), tol(Add(mean(i), Mul(R(2), Mul(mean(i), mean(i)))))), o.cov>>,
                      <<"covariance", \A x \in Pairs(d) : LET ct == Mul(q.lam, q.J[x[1]][x[2]]) IN
                             RLe(Abs(Sub(o.cov[x[1]][x[2]], ct)), tol(Add(Mul(mean(x[1]), mean(x[2])), Add(ct, Mul(ct, ct))))), o.cov>> >>
              ELSE \* stationarity of the conditional Poisson chain: E[g(X_-i) (X_i - exp(v_i + theta_i X_-i))] = 0 for g = 1 and g = X_j
                << <<"conditional-mean", \A i \in 1..d : RLe(Abs(o.gap[i]), Mul(R(6), o.gapse[i])), o.gap>>,
                   <<"conditional-cross", \A i, j \in 1..d : i # j => RLe(Abs(o.cross[i][j]), Mul(R("6.5"), o.crossse[i][j])), o.cross>> >>)
Init == JInit
Next == JNext(Clauses)
=============================================================================
