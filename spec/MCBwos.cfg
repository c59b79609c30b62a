SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  Thieves = {1}
  NBlocks = 2
  BSize = 1
  MaxPush = 4
  MaxPop = 2
  MaxSteal = 2
