SPECIFICATION MCSpec
CONSTANTS
  Keyrings <- MCKeyrings
  Functors = {10000, 10001}
  MaxRuns = 1
INVARIANTS OneOwner Alive Remembers Honest Formats
CHECK_DEADLOCK FALSE
