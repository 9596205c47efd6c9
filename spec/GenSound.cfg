INIT Init
NEXT Next
CONSTANTS MaxDim = 4
          Seeds = {1, 2, 7}
INVARIANTS FastEqualsTextbook CFastEqualsTextbook Linear OneOffShows
CHECK_DEADLOCK FALSE
