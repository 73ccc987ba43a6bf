SPECIFICATION Spec
CONSTANT Wide = {0, 1, 127, 128, 129, 254, 255}
INVARIANTS DecodesToMeaning EncodesMeaning RoundTrip SameLength AllBytes Canonical Mirror
CHECK_DEADLOCK FALSE
