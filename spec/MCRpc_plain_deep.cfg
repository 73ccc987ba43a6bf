SPECIFICATION MCSpec
CONSTANTS
  Keyrings <- MCKeyrings
  MaxCalls = 4
  Kind = "plain"
  En = "BIG"
  Mode = "ONES_COMPLEMENT"
INVARIANTS ExecutedInOrder InFlight
PROPERTIES Refines TakesItsOwn EventuallyAnswered
VIEW MCView
CHECK_DEADLOCK FALSE
