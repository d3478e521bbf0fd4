SPECIFICATION Spec
CONSTANTS MaxScripts = 2
          MaxCmds = 1
INVARIANTS Keeps OneValue DryKeeps RefusedKeeps Again Split Within Emit
CHECK_DEADLOCK FALSE
