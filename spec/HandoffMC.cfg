SPECIFICATION Spec
CONSTANTS MaxProbs = 2
          MaxRanks = 2
INVARIANTS TypeOK RightNullSpace Exclusive JoinedAtEnd
PROPERTIES Terminates
CHECK_DEADLOCK TRUE
