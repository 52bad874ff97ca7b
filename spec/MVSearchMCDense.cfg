SPECIFICATION Spec
CONSTANTS
  G <- Assertion
  Enforced = {}
  Listed = TRUE
  Sampling = FALSE
  Dom <- DomA
  Most = 2
  Longest = 2
INVARIANTS Consistent Progress
CHECK_DEADLOCK FALSE
