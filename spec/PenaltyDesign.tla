--------------------------- MODULE PenaltyDesign ---------------------------
(* Exhaustive check, over small grids, that the proximal maps of Penalty   *)
(* are minimisers: no grid point has a smaller prox objective; and that    *)
(* they have the properties the solvers rely on (non-expansive, odd).      *)
EXTENDS Penalty, TLC
VARIABLES psi, a, lam, done

G == {R("-2"), R("0"), R("1")}
H == {R("-2"), R("-0.5"), R("0"), R("0.5"), R("1")}
Mats(S) == {<<<<w, x>>, <<y, z>>>> : w \in S, x \in S, y \in S, z \in S}
Syms(S) == {<<<<w, x>>, <<x, z>>>> : w \in S, x \in S, z \in S}
PObj(p, Y, X, l) == Add(Mul(l, Pen(p, Y)), Mul(R("0.5"), SumSq(Sub(Y, X))))
HGrid == Mats(H)
HSyms == Syms(H)

Init == /\ psi \in {"laplacian", "l1", "l2", "linf", "node"}
        /\ a \in IF psi = "node" THEN Syms(G) ELSE Mats(G)
        /\ lam \in {R("0.25"), R("1"), R("3")}
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<psi, a, lam>>

Minimal == done => LET x == Force(ProxPen(psi, a, lam))
                       f == PObj(psi, x, a, lam)
                   IN \A y \in (IF psi = "node" THEN HSyms ELSE HGrid) :
                        RLe(f, Add(PObj(psi, y, a, lam), R("1e-7")))
Odd == done => Close(ProxPen(psi, Mul(R(-1), a), lam), Mul(R(-1), ProxPen(psi, a, lam)), R("1e-8"), R("1e-8"))
PenNormLike == done => /\ RLe(R(0), Pen(psi, a))
                       /\ Close(Pen(psi, Mul(R(-1), a)), Pen(psi, a), R("1e-7"), R("1e-7"))
=============================================================================
