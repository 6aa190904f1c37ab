SPECIFICATION Spec
INVARIANT Safe
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  MaxRuns = 3
  Yield = TRUE
  Effects = {"none", "keep", "self", "keepself", "wake", "spawn"}
