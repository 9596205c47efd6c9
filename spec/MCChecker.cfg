INIT Init
NEXT Next
CONSTANTS Eps = 10
          MaxN = 3
INVARIANT CountsRight
CHECK_DEADLOCK FALSE
