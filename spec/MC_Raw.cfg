SPECIFICATION RSpec
CONSTANTS Size = 4 Cap = 4 MaxSys = 5
INVARIANTS WirePrefix Emit
CHECK_DEADLOCK FALSE
