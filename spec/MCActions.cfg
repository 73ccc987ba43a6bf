SPECIFICATION MCSpec
CONSTANTS
  Keyrings <- MCKeyrings
  Functors = {50, 10000}
  MaxRuns = 2
INVARIANTS OneOwner Alive Remembers Honest Formats
CHECK_DEADLOCK FALSE
