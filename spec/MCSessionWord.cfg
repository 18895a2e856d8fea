SPECIFICATION SSpec
CONSTANTS
  Threads = {1, 2}
  Remember = TRUE
  Requests <- MCRequests
  Cache = "word"
CONSTRAINT Bound3
INVARIANTS Pure
CHECK_DEADLOCK FALSE
