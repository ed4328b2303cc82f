CONSTANTS N = 2
 MaxGen = {1, 3}
 Caches = {0, 1, 2}
 Tabs = {1, 2, 3}
 Dyns = {TRUE, FALSE}
 Wide = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT Inv
