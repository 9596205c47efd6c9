INIT Init
NEXT Next
CONSTANTS Mr = 2
          Nr = 2
          Ms = {1, 2, 3, 5, 7, 8, 9}
          Ns = {1, 3, 4, 6, 7}
          Ks = {1, 2, 3, 5, 8}
          Ps = {1, 2, 3}
          Mcs = {2, 4}
          Kcs = {1, 2, 3}
          Ncs = {2, 4}
INVARIANTS BijA BijB BijC PadSmall Strips
CHECK_DEADLOCK FALSE
