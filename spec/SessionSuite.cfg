INIT Init
NEXT Next
INVARIANTS AtMostOneEach Emit
PROPERTY CallsAlterNothing
CHECK_DEADLOCK FALSE
