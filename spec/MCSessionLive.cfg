SPECIFICATION SSpec
CONSTANTS
  Threads = {1, 2}
  Remember = TRUE
  Requests <- MCFew
  Cache = "none"

PROPERTIES Returns
CHECK_DEADLOCK FALSE
