SPECIFICATION Spec
CONSTANTS MaxScripts = 3
          MaxCmds = 1
INVARIANTS Keeps OneValue DryKeeps RefusedKeeps Again Split Within Emit
CHECK_DEADLOCK FALSE
