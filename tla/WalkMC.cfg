CONSTANTS
  OpList <- TheOps
  Burst <- TheBurst
  Mixed <- IsMixed
  MaxLen <- TheMax
  Parts <- TheParts
  Spoils <- TheSpoils
  BoxList <- TheBoxes
INIT Init
NEXT Next
INVARIANT Lawful
CHECK_DEADLOCK FALSE
