CONSTANTS
  Trees = {"te", "teiter", "any", "mrg", "mrgone", "mrgx", "me", "mex"}
  Iavs = {TRUE, FALSE}
  Throws = {1, 2}
SPECIFICATION MCSpec
INVARIANTS DoneMeansOver DoneMeansBelowOver OneToOne NotLost EndsWell
