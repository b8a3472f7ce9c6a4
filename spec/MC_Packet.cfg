SPECIFICATION MSpec
CONSTANTS MaxData = 10 MaxQ = 2
INVARIANTS CursorInBounds BytesOnly DrainedWhenRead NothingInvented
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
