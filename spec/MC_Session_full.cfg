SPECIFICATION Spec
CONSTANTS
  Runs = {"r", "s"}
  Settings = {1, 2}
  Args = {"p"}
  MaxCalls = 2
  MaxProcesses = 2
  Mode = "full"
INVARIANTS Stable
CHECK_DEADLOCK FALSE
