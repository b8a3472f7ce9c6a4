SPECIFICATION CSpec
CONSTANTS
  Combo = 4
  Gen = FALSE
INVARIANT Independent
PROPERTY Local
