SPECIFICATION Spec
CONSTANTS
  Cases <- MCCases
  Ms = {1, 3, 5}
  Ns = {1, 4}
  Ks = {1, 3}
  Ps = {1, 2, 3}
  Bms = {1, 2}
  Bks = {1, 2}
  Bns = {1, 2}
INVARIANTS CoverAtEnd NoRace Even Neighbours PlaceInverse Complete Reuse
CHECK_DEADLOCK FALSE
