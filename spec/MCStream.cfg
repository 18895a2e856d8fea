SPECIFICATION WSpec
CONSTANTS
  Mem <- MCMem
  Isas <- MCIsas
INVARIANTS Contiguous FlagIsLength WidthDecided InRange
PROPERTIES Ends
CHECK_DEADLOCK FALSE
