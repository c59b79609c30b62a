SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  Thieves = {1, 2}
  NBlocks = 2
  BSize = 2
  MaxPush = 6
  MaxPop = 3
  MaxSteal = 2
