SPECIFICATION Spec
CONSTANTS Ranks = {0, 1, 2}
          Iters = 2
          Trials = 2
INVARIANTS Honest Converged Limit Rejected NoDead
PROPERTY Ends1
CHECK_DEADLOCK FALSE
