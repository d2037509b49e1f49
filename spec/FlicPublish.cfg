SPECIFICATION Spec
CONSTANTS MaxN = 26
          MaxP = 6
INVARIANTS NoDangling RootLast AtMostOnce ExactlyOnce Preorder DirectFirst Degree PlannedHeight UniqueIds Consecutive TopIsZero IdsNatural
PROPERTY Finishes
CHECK_DEADLOCK FALSE
