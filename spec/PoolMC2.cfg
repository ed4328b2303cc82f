SPECIFICATION Spec
INVARIANTS AtMostOnce DoneMeansAll Quiet NoDeadlock
CONSTANTS W = 2
 C = 2
 N1 = 2
 N2 = 2
