CONSTANTS Vals = {0, 1}
 MaxLen = 4
 Patiences = {0, 1}
 Deltas = {0, 1}
 Dims = {2}
SPECIFICATION Spec
INVARIANT Inv
