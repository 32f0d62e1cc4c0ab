SPECIFICATION Spec
INVARIANT Least
CHECK_DEADLOCK FALSE
CONSTANTS Limit = 7200
          Which = {1, 2, 3, 4, 5, 6, 7, 8}
