CONSTANTS MaxLen = 4 MaxOps = 2
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANT Inv
