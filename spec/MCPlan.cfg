INIT Init
NEXT Next
CONSTANTS MaxD = 24
          MaxP = 6
          MaxPer = 7
INVARIANTS ShareCovers ShareKCovers GridIsDivisor OrderTotal OrderIsCheapest HeightExists
CHECK_DEADLOCK FALSE
