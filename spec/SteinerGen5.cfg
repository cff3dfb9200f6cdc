SPECIFICATION Spec
CONSTANT K = 5
INVARIANTS AllOnes OnlyRoot Cost
CHECK_DEADLOCK FALSE
