CONSTANTS MaxCap = 4
SPECIFICATION Spec
VIEW View
INVARIANT Bounded
INVARIANT Refines
INVARIANT NoStale
