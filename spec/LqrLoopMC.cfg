SPECIFICATION Spec
CONSTANTS Lo = 3
          Hi = 3
          MaxIt = 4
INVARIANTS Range Budget Honest Floor
PROPERTIES Rises Falls Ends
CHECK_DEADLOCK FALSE
