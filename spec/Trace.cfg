SPECIFICATION TSpec
CONSTANTS
  Threads <- TraceThreads
  Remember = FALSE
  Requests = {}
  Cache = "none"
VIEW View
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
