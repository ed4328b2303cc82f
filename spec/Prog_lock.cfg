SPECIFICATION Spec
INVARIANT Emit
CONSTANTS Fam = "lock"
 MaxT = 3
 MaxO = 2
 MaxAll = 5
