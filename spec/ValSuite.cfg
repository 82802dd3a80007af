INIT Init
NEXT Next
INVARIANTS Accepted Ordered AtConditions Monotone ModesAgree Compositional Emit
CHECK_DEADLOCK FALSE
