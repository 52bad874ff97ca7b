SPECIFICATION Spec
CONSTANTS
  G <- Assertion
  Enforced = {}
  Listed = FALSE
  Sampling = FALSE
  Dom <- DomA
  Most = 2
  Longest = 2
INVARIANTS Consistent Progress
CHECK_DEADLOCK FALSE
