CONSTANTS MaxLen = 4 MaxVal = 2
SPECIFICATION Spec
INVARIANT Inv
