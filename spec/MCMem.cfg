SPECIFICATION Spec
CONSTANTS Cases <- MCCases
INVARIANTS Bounds Kept WrittenFirst Races Returned
PROPERTY Ends
CHECK_DEADLOCK FALSE
