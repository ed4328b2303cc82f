CONSTANTS W = 64
Sizes = {0,1,5,63,64,65,127,128,129}
SPECIFICATION Spec
VIEW View
INVARIANT Refines
