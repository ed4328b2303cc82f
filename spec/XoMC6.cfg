SPECIFICATION Spec
INVARIANTS Good Report
CONSTANTS AllUpTo = 4  IdUpTo = 6
CHECK_DEADLOCK FALSE
