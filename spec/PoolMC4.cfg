SPECIFICATION Spec
INVARIANTS AtMostOnce DoneMeansAll Quiet NoDeadlock
CONSTANTS W = 3
 C = 1
 N1 = 4
 N2 = 2
