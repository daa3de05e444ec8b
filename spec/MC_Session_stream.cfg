SPECIFICATION Spec
CONSTANTS
  Runs = {"r", "s"}
  Settings = {1}
  Args = {"p"}
  MaxCalls = 2
  MaxProcesses = 2
  Mode = "stream"
INVARIANTS Stable
CHECK_DEADLOCK FALSE
