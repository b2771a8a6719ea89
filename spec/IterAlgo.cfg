SPECIFICATION ASpec
VIEW AView
INVARIANT Refines
CHECK_DEADLOCK FALSE
