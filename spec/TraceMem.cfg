SPECIFICATION Spec
CONSTANTS Judge = {"bounds", "race"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
