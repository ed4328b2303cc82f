SPECIFICATION Spec
INVARIANTS NotBeaten OnFront InNadir Report
CONSTANT Fine = FALSE
CHECK_DEADLOCK FALSE
