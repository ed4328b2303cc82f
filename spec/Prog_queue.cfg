SPECIFICATION Spec
INVARIANT Emit
CONSTANTS Fam = "queue"
 MaxT = 3
 MaxO = 2
 MaxAll = 5
