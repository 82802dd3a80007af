INIT Init
NEXT Next
INVARIANTS TreeOK Viable SameAsMeaning Emit
CHECK_DEADLOCK FALSE
