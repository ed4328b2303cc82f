SPECIFICATION Spec
INVARIANT DepthOk
INVARIANT Gen
