INIT Init
NEXT Next
INVARIANTS RealParents Memoryless SameAsProgram Emit
CHECK_DEADLOCK FALSE
