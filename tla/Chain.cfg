SPECIFICATION Spec
CONSTANT MaxN = 9
INVARIANTS TypeOK NoOverrun NoOvershoot StepOrder Orders Descending AtEnd
PROPERTY Finishes
CHECK_DEADLOCK FALSE
