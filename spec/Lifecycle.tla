----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* Life of an estimator.  Its abstract state is the current parameters and *)
(* what it was last fitted with; everything it reports is a function of    *)
(* that state, never of the history that led there.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Params, Data
NoFit == [p |-> "none", d |-> "none"]
New(p) == [par |-> p, fit |-> NoFit]
Apply(st, op) ==
  CASE op.op = "fit" -> [par |-> st.par, fit |-> [p |-> st.par, d |-> op.arg]]
    [] op.op = "set" -> [par |-> op.arg, fit |-> st.fit]
    [] op.op = "clone" -> [par |-> st.par, fit |-> NoFit]
    [] OTHER -> st                       \* score, pickle, copy, params: observers
Enabled(st, op) ==
  CASE op.op = "score" -> st.fit # NoFit
    [] op.op = "set" -> op.arg # st.par
    [] OTHER -> TRUE
Ops == {[op |-> "fit", arg |-> d] : d \in Data} \union {[op |-> "set", arg |-> p] : p \in Params}
       \union {[op |-> o, arg |-> ""] : o \in {"clone", "pickle", "params", "score", "reseed"}}
RECURSIVE Run(_, _, _)
Run(st, ops, k) == IF k > Len(ops) THEN <<>> ELSE LET n == Apply(st, ops[k]) IN <<n>> \o Run(n, ops, k + 1)
=============================================================================
