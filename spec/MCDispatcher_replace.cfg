SPECIFICATION MCSpec
CONSTANTS
  Keyrings <- MCKeyrings
  Kind = "double"
  MaxRx = 4
  Bytes = {0, 1, 9}
  Ops = {"write", "replace", "move"}
INVARIANTS Framing Execution Output Bounded NoResponseAfterThrow ChunkLaw
PROPERTY Independence
VIEW MCView
CHECK_DEADLOCK FALSE
