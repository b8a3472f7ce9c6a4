SPECIFICATION CSpec
CONSTANTS
  Combo = 2
  Gen = FALSE
INVARIANT Independent
PROPERTY Local
