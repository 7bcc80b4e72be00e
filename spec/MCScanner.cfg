CONSTANTS
  Alphabet = {"AL","NU","MB","WS","XT","HL","DQ","RI","LF"}
  MaxLen = 4
SPECIFICATION MCSpec
INVARIANTS RoundTrip Boundaries Faithful Live
CHECK_DEADLOCK FALSE
