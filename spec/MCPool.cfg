SPECIFICATION FairSpec
INVARIANT Once NoStrand
PROPERTY Ends
CONSTANTS
  Workers = {w1, w2}
  Enq = {e1}
  PerEnq = 2
  Child = FALSE
