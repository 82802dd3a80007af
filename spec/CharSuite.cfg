INIT Init
NEXT Next
INVARIANTS DecoderAgrees NormLaws TreeOK Emit
CHECK_DEADLOCK FALSE
