SPECIFICATION Spec
CONSTANTS
  NPix = 2
  Lams <- LamsQ
  Phis <- PhisQ
  G = 30
  WDom <- WDomF
  VDom = {"flag", "half", "i", "zero"}
  Emit = TRUE
INVARIANTS ClosedForm FlagIsDelete Bounded ZeroDepth Lam0Inside RmsfFacts EmitCase
CHECK_DEADLOCK FALSE
