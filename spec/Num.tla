-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real numbers for the specifications of regain.                          *)
(*                                                                         *)
(* TLC has no reals; java/Num.java supplies them (IEEE doubles as TLC      *)
(* values), exactly as TLC itself supplies Naturals.  The definitions      *)
(* below state the meaning (and the arity) of each operator; operators     *)
(* whose meaning cannot be written over finite data are left as a stub.    *)
(* A tensor is a nested sequence of numbers (vector, matrix, batch).       *)
(* Operators named Add .. Soft act element-wise on tensors of any depth    *)
(* and broadcast a scalar operand.                                         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

LOCAL Stub == Assert(FALSE, "module Num needs its Java override on the classpath")

R(x) == Stub                \* the real number (tensor) written as an integer or decimal string
RDiv(a, b) == Stub
RLe(a, b) == Stub           \* a <= b   (FALSE if either is NaN)
RLt(a, b) == Stub
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RSqrt(a) == Stub
RLog(a) == Stub
RExp(a) == Stub
RPow(a, b) == Stub
RIsFinite(a) == Stub
RIsNaN(a) == Stub
RSign(a) == Stub            \* -1, 0 or 1, an integer
RFloor(a) == Stub
RLgamma(a) == Stub
RSin(a) == Stub
RCos(a) == Stub

Add(a, b) == Stub
Sub(a, b) == Stub
Mul(a, b) == Stub
EDiv(a, b) == Stub
EMax(a, b) == Stub
EMin(a, b) == Stub
Abs(a) == Stub
ESqrt(a) == Stub
EExp(a) == Stub
ELog(a) == Stub
ESgn(a) == Stub
Soft(a, l) == Mul(ESgn(a), EMax(Sub(Abs(a), l), 0))     \* soft threshold

Sum(a) == Stub
SumSq(a) == Sum(Mul(a, a))
SumAbs(a) == Sum(Abs(a))
MaxAbs(a) == Stub
MinElt(a) == Stub
MaxElt(a) == Stub
AllFinite(a) == Stub
CountNZ(a) == Stub
SameShape(a, b) == Stub
Close(a, b, atol, rtol) == Stub   \* same shape and |a-b| <= atol + rtol*max(|a|,|b|) everywhere

Dot(a, b) == Sum(Mul(a, b))
Inner(a, b) == Sum(Mul(a, b))
MMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> Sum([k \in 1..Len(b) |-> Mul(a[i][k], b[k][j])])]]
MVec(a, v) == [i \in 1..Len(a) |-> Dot(a[i], v)]
MT(a) == [j \in 1..Len(a[1]) |-> [i \in 1..Len(a) |-> a[i][j]]]
Sym(a) == Mul(R("0.5"), Add(a, MT(a)))
Eye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R(1) ELSE R(0)]]
Diag(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE R(0)]]
DiagOf(a) == [i \in 1..Len(a) |-> a[i][i]]
OffDiag(a) == [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> IF i = j THEN R(0) ELSE a[i][j]]]
Trace(a) == Sum(DiagOf(a))
EigVals(a) == Stub          \* eigenvalues of a symmetric matrix, ascending
EigVecs(a) == Stub          \* matching orthonormal eigenvectors, in columns
SingVals(a) == Stub
MInv(a) == Stub
Det(a) == Stub
LogDet(a) == Stub           \* log det; -inf when not positive definite
SortR(a) == Stub

LoadJson(path) == Stub      \* a JSON document; numbers with a fraction or exponent are reals
EmitJson(path, v) == Stub   \* append v as one JSON line to a file; TRUE
Env(name) == Stub           \* environment variable
Force(v) == v               \* v, fully evaluated
Iterate(op(_), s, stop(_), n) ==
  LET RECURSIVE It(_, _)
      It(x, k) == IF k = 0 \/ stop(x) THEN x ELSE It(op(x), k - 1)
  IN It(s, n)
Try(e) == e                 \* e; << <<"malformed-observation", FALSE, message>> >> when TLC cannot evaluate e
=============================================================================
