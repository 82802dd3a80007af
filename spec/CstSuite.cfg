INIT Init
NEXT Next
INVARIANTS CstOK LowAgrees EmitLow
CHECK_DEADLOCK FALSE
