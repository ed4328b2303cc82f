SPECIFICATION Spec
INVARIANTS AtMostOnce DoneMeansAll Quiet NoDeadlock
CONSTANTS W = 2
 C = 1
 N1 = 3
 N2 = 2
