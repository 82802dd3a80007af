INIT Init
NEXT Next
VIEW View
INVARIANT Emit
CHECK_DEADLOCK FALSE
