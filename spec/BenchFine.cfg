SPECIFICATION Spec
INVARIANTS NotBeaten OnFront InNadir Report
CONSTANT Fine = TRUE
CHECK_DEADLOCK FALSE
