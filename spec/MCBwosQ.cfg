SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  Thieves = {1, 2}
  NBlocks = 2
  BSize = 2
  MaxPush = 5
  MaxPop = 2
  MaxSteal = 1
