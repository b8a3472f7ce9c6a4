SPECIFICATION CSpec
CONSTANTS
  Combo = 3
  Gen = FALSE
INVARIANT Independent
PROPERTY Local
