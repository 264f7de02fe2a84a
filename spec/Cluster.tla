------------------------------ MODULE Cluster ------------------------------
(***************************************************************************)
(* Clustering of times by their graphs.                                     *)
(*   complete linkage: start from singletons, merge the two clusters whose  *)
(*   farthest members are nearest until k remain                            *)
(*   graph k-means: a graph belongs to the first nearest representative,    *)
(*   the representative of a cluster has the edges common to its members    *)
(***************************************************************************)
EXTENDS Penalty, TraceBase
DistOf(Ks, psi) == [s \in 1..Len(Ks) |-> [t \in 1..Len(Ks) |-> IF s = t THEN R(0) ELSE Pen(psi, Sub(Ks[s], Ks[t]))]]
DistOd(Ks) == [s \in 1..Len(Ks) |-> [t \in 1..Len(Ks) |-> IF s = t THEN R(0) ELSE Pen("l1", OffDiag(Sub(Ks[s], Ks[t])))]]
MaxOver(D) == MaxElt([s \in 1..Len(D) |-> MaxElt(D[s])])
Similarity(D) == LET m == MaxOver(D) IN [s \in 1..Len(D) |-> [t \in 1..Len(D) |-> IF RSign(m) = 0 THEN R(1) ELSE Sub(R(1), RDiv(D[s][t], m))]]
Link(D, a, b) == LET S == {D[i][j] : i \in a, j \in b} IN CHOOSE x \in S : \A z \in S : RLe(z, x)
\* result: the partition, and whether every merge was decided by a clear margin
RECURSIVE Merge(_, _, _, _)
Merge(D, P, k, clear) ==
  IF Cardinality(P) <= k THEN [parts |-> P, clear |-> clear]
  ELSE LET prs == {e \in P \X P : e[1] # e[2]}
           best == CHOOSE e \in prs : \A f \in prs : RLe(Link(D, e[1], e[2]), Link(D, f[1], f[2]))
           v == Link(D, best[1], best[2])
           margin == \A f \in prs : f \in {best, <<best[2], best[1]>>} \/ RLt(Add(v, Mul(R("1e-4"), MaxOver(D))), Link(D, f[1], f[2]))
       IN Merge(D, (P \ {best[1], best[2]}) \cup {best[1] \cup best[2]}, k, clear /\ margin)
CompleteLinkage(D, k) == Merge(D, {{t} : t \in 1..Len(D)}, k, TRUE)
\* kernel of a partition: 1 within a cluster, plus a squared exponential of the lag
ClusterKernel(P, T, beta) ==
  [s \in 1..T |-> [t \in 1..T |->
     Add(IF \E c \in P : s \in c /\ t \in c THEN R(1) ELSE R(0), LET d == RDiv(R(s - t), beta) IN RExp(Mul(R("-0.5"), Mul(d, d))))]]
PartOf(labels) == {{t \in 1..Len(labels) : labels[t] = v} : v \in {labels[u] : u \in 1..Len(labels)}}
\* graphs as matrices
NZ(G, i, j) == RSign(G[i][j]) # 0
GDist(G, H) == RDiv(R(Cardinality({e \in (1..Len(G)) \X (1..Len(G)) : NZ(G, e[1], e[2]) # NZ(H, e[1], e[2])})), R(2))
Common(Gs) == LET n == Len(Gs[1]) IN [i \in 1..n |-> [j \in 1..n |-> IF \A g \in 1..Len(Gs) : NZ(Gs[g], i, j) THEN R(1) ELSE R(0)]]
Members(Gs, l, v) == LET ix == SelectSeq([i \in 1..Len(Gs) |-> i], LAMBDA i : l[i] = v) IN [a \in 1..Len(ix) |-> Gs[ix[a]]]
Nearest(row) == CHOOSE j \in 1..Len(row) : (\A i \in 1..Len(row) : RLe(row[j], row[i])) /\ (\A i \in 1..(j - 1) : RLt(row[j], row[i]))
\* one round: distances to the representatives, nearest label, common edges of every non-empty cluster
RDists(Gs, reps) == Force([i \in 1..Len(Gs) |-> [v \in 1..Len(reps) |-> GDist(Gs[i], reps[v])]])
Used(l, m) == SelectSeq([v \in 1..m |-> v], LAMBDA v : \E i \in 1..Len(l) : l[i] = v)
KMKernel(D) ==
  LET S == [i \in 1..Len(D) |-> LET m == MaxElt(D[i]) IN [v \in 1..Len(D[i]) |-> IF RSign(m) = 0 THEN R(1) ELSE Sub(R(1), RDiv(D[i][v], m))]]
  IN MMul(S, MT(S))
\* the run from given representatives: kernel of the last distances, and whether the labels settled
RECURSIVE KMRun(_, _, _, _)
KMRun(Gs, reps, prev, rounds) ==
  LET D == RDists(Gs, reps)
      l == [i \in 1..Len(Gs) |-> Nearest(D[i])]
      u == Used(l, Len(reps))
  IN IF l = prev THEN [D |-> D, settled |-> TRUE]
     ELSE IF rounds = 1 THEN [D |-> D, settled |-> FALSE]
     ELSE KMRun(Gs, Force([v \in 1..Len(u) |-> Common(Members(Gs, l, u[v]))]), l, rounds - 1)
\* starts: any k different graphs, in any order
Starts(n, k) == {st \in [1..(IF k < n THEN k ELSE n) -> 1..n] : \A a, b \in DOMAIN st : a # b => st[a] # st[b]}
KMResults(Gs, k, rounds) == {KMRun(Gs, [v \in 1..Len(st) |-> Gs[st[v]]], <<>>, rounds) : st \in Starts(Len(Gs), k)}
=============================================================================
