CONSTANTS Keys = {1,2,3,4}
 Vals = {1,2}
 MaxCap = 3
SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY EvictOldest
