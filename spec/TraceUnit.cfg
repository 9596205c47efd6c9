SPECIFICATION Spec
CONSTANTS Judge = {"value", "res"}
          Mrs <- TrMrs
          Nrs <- TrNrs
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
