INIT Init
NEXT Next
INVARIANTS OneOperator EmptyMeansNo AtMostOne Emit
CHECK_DEADLOCK FALSE
