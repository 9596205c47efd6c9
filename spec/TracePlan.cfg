SPECIFICATION Spec
CONSTANTS Judge = {"budget", "cover", "order", "size", "grid"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
