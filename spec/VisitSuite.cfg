INIT Init
NEXT Next
INVARIANTS OnceInOrder Everything Consulted Nested SameAsRun Emit
CHECK_DEADLOCK FALSE
