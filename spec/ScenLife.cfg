INIT Init
NEXT Next
INVARIANT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
