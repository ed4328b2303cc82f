SPECIFICATION Spec
INVARIANTS Excl Range Progress Clean
PROPERTY Live
CONSTANTS T = {a, b, d, e}
 Ops = 2
 W = 8
