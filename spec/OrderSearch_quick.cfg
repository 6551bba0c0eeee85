SPECIFICATION Spec
CONSTANTS
  MaxOrder = 5
  Levels = {1, 2, 3}
  Emit = TRUE
INVARIANTS LimitKept DownhillOnly MatchesClosedForm NeverWorse EmitCase
PROPERTIES OneAtATime Terminates
CHECK_DEADLOCK FALSE
