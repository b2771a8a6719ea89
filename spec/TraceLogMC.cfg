SPECIFICATION Spec
CONSTANTS
  Threads <- MCThreads
  Bodies <- MCBodies
  MaxRuns = 2
INVARIANTS OncePerThread GuardIsPast
PROPERTY Promise
CHECK_DEADLOCK FALSE
