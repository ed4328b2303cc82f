SPECIFICATION Spec
CONSTANTS W = 3
 Sizes = {2, 4}
 Seeds = {1, 2}
 MaxActs = 3
 Reset = TRUE
 Fifo = TRUE
 Own = TRUE
 Join = TRUE
INVARIANT Same
CHECK_DEADLOCK FALSE
