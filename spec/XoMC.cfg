SPECIFICATION Spec
INVARIANTS Good Report
CONSTANTS AllUpTo = 3  IdUpTo = 5
CHECK_DEADLOCK FALSE
