SPECIFICATION Spec
INVARIANT Right
CONSTANTS Max = 2
 NL = 3
 NR = 2
