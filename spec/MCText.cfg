SPECIFICATION Spec
CONSTANTS
  Bytes <- Few
  MaxLen = 4
INVARIANT Letters
INVARIANT Again
INVARIANT OnlyOne
INVARIANT Amount
INVARIANT Cuts
CHECK_DEADLOCK FALSE
