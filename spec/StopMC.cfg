CONSTANTS Vals = {0, 1, 2}
 MaxLen = 6
 Patiences = {0, 1, 2}
 Deltas = {0, 1, 2}
 Dims = {1}
SPECIFICATION Spec
INVARIANT Inv
