INIT Init
NEXT Next
INVARIANTS AsAlone Bounded Emit
CHECK_DEADLOCK FALSE
