SPECIFICATION Spec
CONSTANT MaxBits = 6
INVARIANTS LadderInv Correct
CHECK_DEADLOCK FALSE
