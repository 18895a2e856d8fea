SPECIFICATION PSpec
CONSTANTS
  Texts <- MCTexts
  Rooms <- MCRooms
  Care = "full"
INVARIANTS C25
PROPERTIES Closes
CHECK_DEADLOCK FALSE
