INIT Init
NEXT Next
INVARIANTS Minimal Odd PenNormLike
CHECK_DEADLOCK FALSE
