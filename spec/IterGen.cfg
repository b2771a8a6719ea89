SPECIFICATION Spec
VIEW View
INVARIANT Invariants
INVARIANT Emit
CHECK_DEADLOCK FALSE
