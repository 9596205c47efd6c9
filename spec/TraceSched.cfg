SPECIFICATION Spec
CONSTANTS Judge = {"cover", "even", "walk", "reuse", "order"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
