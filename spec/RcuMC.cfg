SPECIFICATION Spec
INVARIANTS Safe Current Stuck
CONSTANTS Readers = {r1, r2}
 Writers = {w1, w2}
 Sections = 1
 Updates = 1
 Fenced = TRUE
