SPECIFICATION Spec
CONSTANTS
  C = "H264"
  L = 4
  Sizes = {1, 4, 5, 9}
  MaxUnits = 2
  MaxFrames = 2
INVARIANTS RoundTrip Within KeyFirst
CONSTRAINT Dump
CHECK_DEADLOCK FALSE
