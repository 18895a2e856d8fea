SPECIFICATION GSpec
CONSTANTS
  Threads = {1, 2, 3}
  Remember = FALSE
  Requests = {}
  Cache = "none"
  Depth = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
