SPECIFICATION Spec
INVARIANTS RoundTrip KernelOK
CHECK_DEADLOCK FALSE
