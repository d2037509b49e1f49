SPECIFICATION Spec
CONSTANTS MaxN = 70
          MaxP = 7
INVARIANTS NoDangling RootLast AtMostOnce ExactlyOnce Preorder DirectFirst Degree PlannedHeight UniqueIds Consecutive TopIsZero IdsNatural
PROPERTY Finishes
CHECK_DEADLOCK FALSE
