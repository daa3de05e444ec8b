SPECIFICATION Spec
CONSTANTS
  Runs = {"r", "s"}
  Settings = {1}
  Args = {"p"}
  MaxCalls = 3
  MaxProcesses = 2
  Mode = "full"
INVARIANTS Stable
CHECK_DEADLOCK FALSE
