SPECIFICATION Spec
CONSTANT Enforced <- EnforcedFromEnv
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
