INIT Init
NEXT Next
INVARIANTS Agree Roots Ends Partition Emit
CHECK_DEADLOCK FALSE
