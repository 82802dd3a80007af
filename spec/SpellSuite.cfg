INIT Init
NEXT Next
INVARIANTS SpellingInvariant Spelled Emit
CHECK_DEADLOCK FALSE
