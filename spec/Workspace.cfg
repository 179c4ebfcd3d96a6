INIT Init
NEXT Next
INVARIANTS InputsKept SuccessIsComplete ClashFails
CHECK_DEADLOCK FALSE
