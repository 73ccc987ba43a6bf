SPECIFICATION MCSpec
CONSTANTS
  Keyrings <- MCKeyrings
  Kind = "single"
  MaxRx = 5
  Bytes = {0, 1, 2, 9}
  Ops = {"read", "get", "write", "throw", "reply"}
INVARIANTS Framing Execution Output Bounded NoResponseAfterThrow ChunkLaw
PROPERTY Independence
VIEW MCView
CHECK_DEADLOCK FALSE
