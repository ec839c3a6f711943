INIT Init
NEXT Next
INVARIANT IntLaws
INVARIANT NumLaws
CHECK_DEADLOCK FALSE
