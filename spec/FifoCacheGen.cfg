CONSTANTS Keys = {1,2,3}
 Vals = {1,2}
 MaxCap = 2
SPECIFICATION Spec
VIEW View
INVARIANT Inv
