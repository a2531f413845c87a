CONSTANTS
  OpList <- TheOps
  Burst <- TheBurst
  Mixed <- IsMixed
  MaxLen <- TheMax
  Parts <- TheParts
  Spoils <- TheSpoils
  BoxList <- TheBoxes
INIT SInit
NEXT SNext
PROPERTY Unchanged
CHECK_DEADLOCK FALSE
