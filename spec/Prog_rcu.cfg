SPECIFICATION Spec
INVARIANT Emit
CONSTANTS Fam = "rcu"
 MaxT = 3
 MaxO = 2
 MaxAll = 5
