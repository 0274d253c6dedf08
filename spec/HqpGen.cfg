SPECIFICATION Spec
CONSTANTS Walks = 300
          MaxN = 5
          MaxRanks = 5
          MaxProblems = 3
INVARIANTS CertInv EmitInv
CHECK_DEADLOCK FALSE
