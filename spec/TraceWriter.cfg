SPECIFICATION TPSpec
CONSTANTS
  Texts <- NoTexts
  Rooms <- NoRooms
  Care = "full"
VIEW View
INVARIANTS C25
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
