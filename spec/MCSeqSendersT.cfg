CONSTANTS
  Trees = {"te", "teiter", "any", "mrg", "mrgone", "mrgx", "me", "mex", "meo", "me2", "mete"}
  Iavs = {TRUE, FALSE}
  Throws = {1, 2, 3}
SPECIFICATION MCSpec
INVARIANTS DoneMeansOver DoneMeansBelowOver OneToOne NotLost EndsWell
