SPECIFICATION MSpec
CONSTANT Keyrings <- MCKeyrings
VIEW View
INVARIANTS OneRequest OneOutcome OwnRequest OwnResponse Untouched OwnFailure NoTransport Rejected Settled
CHECK_DEADLOCK FALSE
