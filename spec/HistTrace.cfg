SPECIFICATION Spec
INVARIANT Report
