SPECIFICATION Spec
INVARIANTS Fifo NoLostWakeup
CONSTANTS T = {a, b, d, e}
 Ops = 2
