SPECIFICATION TWSpec
CONSTANTS
  Mem <- NoMem
  Isas <- AllIsas
VIEW View
INVARIANTS Contiguous WidthDecided InRange
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
