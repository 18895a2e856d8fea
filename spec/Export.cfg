SPECIFICATION XSpec
CONSTANTS
  Groups <- MCGroups
  CallsOf <- MCCallsOf
CHECK_DEADLOCK FALSE
