SPECIFICATION WalkSpec
INVARIANT Invariants
INVARIANT EmitWalk
CHECK_DEADLOCK FALSE
