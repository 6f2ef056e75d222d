SPECIFICATION Spec
CONSTANTS
  MaxMisc = 1
  Mode = "gen"
ACTION_CONSTRAINT EmitC
CHECK_DEADLOCK FALSE
