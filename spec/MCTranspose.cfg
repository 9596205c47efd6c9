SPECIFICATION TSpec
CONSTANTS R = 2
          Ks = {1, 2, 3, 5}
          Ns = {1, 2, 4, 5}
          Kts = {0, 2, 3, 6}
          Nts = {1, 3, 4}
INVARIANT Transposed
PROPERTY Ends
CHECK_DEADLOCK FALSE
