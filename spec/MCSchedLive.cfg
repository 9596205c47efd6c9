SPECIFICATION Spec
CONSTANTS
  Cases <- MCCases
  Ms = {1, 5}
  Ns = {4}
  Ks = {3}
  Ps = {2, 3}
  Bms = {1, 2}
  Bks = {1, 2}
  Bns = {1, 2}

PROPERTY Progress
CHECK_DEADLOCK FALSE
