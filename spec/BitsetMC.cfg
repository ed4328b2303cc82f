CONSTANTS W = 2
Sizes = {0,1,2,3,4,5}
SPECIFICATION Spec
INVARIANT Refines
VIEW FullView
