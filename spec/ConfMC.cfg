CONSTANT MaxSets = 2
SPECIFICATION Spec
INVARIANT Inv
