SPECIFICATION SpecMC
CONSTANT Widest = 7
INVARIANTS LinearFits ThereAndBack QuadFits
CHECK_DEADLOCK FALSE
