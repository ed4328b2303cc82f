SPECIFICATION Spec
INVARIANT Right
CONSTANTS Max = 2
 NL = 2
 NR = 2
