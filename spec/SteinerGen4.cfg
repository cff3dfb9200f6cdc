SPECIFICATION Spec
CONSTANT K = 4
INVARIANTS AllOnes OnlyRoot Cost
CHECK_DEADLOCK FALSE
