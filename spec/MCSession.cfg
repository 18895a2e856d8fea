SPECIFICATION SSpec
CONSTANTS
  Threads = {1, 2}
  Remember = TRUE
  Requests <- MCRequests
  Cache = "none"
CONSTRAINT Bound2
INVARIANTS Pure Conforms
CHECK_DEADLOCK FALSE
