SPECIFICATION Spec
INVARIANT Powers JumpIsPower Injective
CHECK_DEADLOCK FALSE
