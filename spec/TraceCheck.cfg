SPECIFICATION CSpec
CONSTANTS
  Threads = {1}
  Bodies = {}
  MaxRuns = 0
CHECK_DEADLOCK FALSE
