SPECIFICATION Spec
CONSTANTS W = 2
 Sizes = {1, 2, 3}
 Seeds = {1}
 MaxActs = 3
 Reset = TRUE
 Fifo = TRUE
 Own = TRUE
 Join = TRUE
INVARIANT Same
CHECK_DEADLOCK FALSE
