SPECIFICATION GSpec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  MaxRuns = 4
  Yield = TRUE
  MaxHist = 24
  Effects = {"none", "keep", "self", "keepself", "wake", "spawn"}
