SPECIFICATION TraceSpec
CONSTANTS Prime = 32749
          Judge = {"value", "frame", "ctx", "res"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
