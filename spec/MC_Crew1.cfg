SPECIFICATION CSpec
CONSTANTS
  Combo = 1
  Gen = FALSE
INVARIANT Independent
PROPERTY Local
