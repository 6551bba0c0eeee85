SPECIFICATION Spec
CONSTANTS
  NPix = 2
  Lams <- LamsT
  Phis <- PhisQ
  G = 20
  WDom <- WDomT
  VDom = {"flag", "one", "m"}
  Emit = TRUE
INVARIANTS ClosedForm FlagIsDelete Bounded ZeroDepth Lam0Inside RmsfFacts EmitCase
CHECK_DEADLOCK FALSE
