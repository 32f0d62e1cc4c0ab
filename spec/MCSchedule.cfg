SPECIFICATION Spec
INVARIANT Least
CHECK_DEADLOCK FALSE
CONSTANTS Limit = 2880
          Which = {2, 3, 6}
