SPECIFICATION MCSpec
CONSTANTS
  Keyrings <- MCKeyrings
  MaxCalls = 4
  Kind = "double"
  En = "BIG"
  Mode = "ONES_COMPLEMENT"
INVARIANTS ExecutedInOrder InFlight
PROPERTIES Refines TakesItsOwn EventuallyAnswered
VIEW MCView
CHECK_DEADLOCK FALSE
