SPECIFICATION RSpec
CONSTANTS Cases <- RCases
          Factors <- MCFactors
          Ms = {1, 3}
          Ns = {1, 2}
          Ks = {1, 3}
          Ps = {1, 2}
          Seeds = {2, 5}
PROPERTY Refines
CHECK_DEADLOCK FALSE
