----------------------------- MODULE Stability -----------------------------
(***************************************************************************)
(* Stability selection.  For every candidate (from the sparsest to the      *)
(* densest) m graphs are estimated on subsamples.  Instability of a pair of *)
(* nodes: 2 xi (1 - xi), xi = share of the graphs with that edge; of a      *)
(* candidate: mean over the pairs (and times).  The instabilities are       *)
(* replaced by their running maximum and the least sparse value not above   *)
(* the threshold is selected.                                               *)
(***************************************************************************)
EXTENDS TraceBase
Threshold == R("0.05")
Pairs(p) == {ij \in (1..p) \X (1..p) : ij[1] < ij[2]}
\* Gs: sequence of m graphs; a graph is a sequence of T matrices
Xi(Gs, t, i, j) == RDiv(R(Cardinality({k \in 1..Len(Gs) : RSign(Gs[k][t][i][j]) # 0})), R(Len(Gs)))
Instability(Gs) ==
  LET T == Len(Gs[1])
      p == Len(Gs[1][1])
      v(ij, t) == LET x == Xi(Gs, t, ij[1], ij[2]) IN Mul(R(2), Mul(x, Sub(R(1), x)))
  IN RDiv(RSumSet(LAMBDA z : v(z[1], z[2]), Pairs(p) \X (1..T)), R(T * Cardinality(Pairs(p))))
UpperBound(Gs) == LET th == Instability(Gs) IN Mul(R(4), Mul(th, Sub(R(1), th)))
RunMax(v) == [k \in 1..Len(v) |-> MaxElt(SubSeq(v, 1, k))]
\* mean over the pairs of graphs of the graphlet distance; here the distance is
\* the share of the nodes whose degree differs (averaged over the times)
Deg(G, i) == Cardinality({j \in 1..Len(G) : j # i /\ RSign(G[i][j]) # 0})
Dist(A, B) == RDiv(R(Cardinality({i \in 1..Len(A) : Deg(A, i) # Deg(B, i)})), R(Len(A)))
Graphlet(Gs) ==
  LET m == Len(Gs)
      T == Len(Gs[1])
      d(a, b) == RDiv(RSumSet(LAMBDA t : Dist(Gs[a][t], Gs[b][t]), 1..T), R(T))
  IN RDiv(RSumSet(LAMBDA ab : d(ab[1], ab[2]), Pairs(m)), R(Cardinality(Pairs(m))))
=============================================================================
