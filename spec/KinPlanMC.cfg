SPECIFICATION Spec
CONSTANTS N = 4
          Drops = {1, 4}
INVARIANTS ClosedForm Ballistic Angles
CHECK_DEADLOCK FALSE
