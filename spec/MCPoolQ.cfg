SPECIFICATION Spec
INVARIANT Once NoStrand
CONSTANTS
  Workers = {w1, w2}
  Enq = {e1, e2}
  PerEnq = 1
  Child = TRUE
