SPECIFICATION Spec
CONSTANTS
  G <- Assertion
  Enforced = {}
  Listed = TRUE
  Sampling = TRUE
  Dom <- DomA
  Most = 2
  Longest = 2
INVARIANTS Consistent Progress
CHECK_DEADLOCK FALSE
