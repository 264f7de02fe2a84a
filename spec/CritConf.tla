----------------------------- MODULE CritConf -----------------------------
(***************************************************************************)
(* log-likelihood without constant:  l(K) = log det K - <S, K>             *)
(* (-inf when det K <= 0).  The criteria subtract a penalty per non-zero   *)
(* off-diagonal entry; the _t variants sum over the batch, with p = T*d    *)
(* variables.                                                              *)
(***************************************************************************)
EXTENDS TraceBase
Ll(S, K) == IF RLe(Det(K), R(0)) THEN R("-inf") ELSE Sub(RLog(Det(K)), Inner(S, K))
Edges(K) == CountNZ(OffDiag(K))
RECURSIVE SumI(_)
SumI(q) == IF q = <<>> THEN 0 ELSE q[1] + SumI(Tail(q))
RECURSIVE SumR(_)
SumR(q) == IF q = <<>> THEN R(0) ELSE Add(q[1], SumR(Tail(q)))
Pen(name, n, eps, p, e) ==
  LET en == RDiv(R(e), n)
      LogP == IF name \in {"EBIC", "EBIC_t"} THEN RLog(R(p)) ELSE RLog(RDiv(R(p * (p - 1)), R(2)))
  IN IF name \in {"BIC", "BIC_t"} THEN R(e)
     ELSE Add(Mul(RLog(n), en), Mul(Mul(Mul(R(4), eps), LogP), en))
Want(q) ==
  LET T == Len(q.K)
      lls == Force([t \in 1..T |-> Ll(q.S[t], q.K[t])])
      tot == SumR(lls)
      e == SumI([t \in 1..T |-> Edges(q.K[t])])
      p == T * Len(q.K[1])
  IN CASE q.fn = "ll" -> lls
       [] q.fn = "ll_t" -> tot
       [] OTHER -> Sub(tot, Pen(q.fn, q.n, q.eps, p, e))
Same(a, b) == IF RIsFinite(b) THEN Close(a, b, R("1e-7"), R("1e-8")) ELSE ~RIsFinite(a) /\ RLt(a, R(0))
Clauses(c) ==
  IF c.err # "" THEN <<NoErr(c)>>
  ELSE LET w == Want(c.inp)
           v == c.out.v
       IN << <<"value", IF c.inp.fn = "ll" THEN Len(v) = Len(w) /\ \A t \in 1..Len(w) : Same(v[t], w[t]) ELSE Same(v, w), <<v, w>>>>,
             <<"inputs-untouched", c.out.clean, "">> >>
Init == JInit
Next == JNext(Clauses)
=============================================================================
