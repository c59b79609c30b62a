SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  Thieves = {1, 2}
  NBlocks = 4
  BSize = 1
  MaxPush = 6
  MaxPop = 3
  MaxSteal = 2
