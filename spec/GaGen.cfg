CONSTANTS N = 2
 MaxGen = {3}
 Caches = {0, 1}
 Tabs = {1, 2}
 Dyns = {FALSE}
 Wide = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Inv
