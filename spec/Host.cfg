SPECIFICATION Spec
CONSTANTS
  Programs = {1, 2, 3}
  Seeds = {0, 1, 4242}
  Names = {"here", "full", "over", "away"}
  MaxRuns = 3
  MaxProcesses = 3
INVARIANT Apart
CHECK_DEADLOCK FALSE
