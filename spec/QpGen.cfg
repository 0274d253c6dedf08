SPECIFICATION Spec
CONSTANTS Walks = 300
          MaxN = 5
INVARIANTS CertInv EmitInv
CHECK_DEADLOCK FALSE
