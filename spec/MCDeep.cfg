CONSTANT N = 3
INIT Init
NEXT Next
INVARIANTS OneOK TwoOK ThreeOK
CHECK_DEADLOCK FALSE
