SPECIFICATION MCSpec
CONSTANTS
  Keyrings <- MCKeyrings
  Kind = "double"
  MaxRx = 3
  Bytes = {0, 1, 9}
  Ops = {"get", "move", "copy"}
INVARIANTS Framing Execution Output Bounded NoResponseAfterThrow ChunkLaw
PROPERTY Independence
VIEW MCView
CHECK_DEADLOCK FALSE
