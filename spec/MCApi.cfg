SPECIFICATION MCSpec
CONSTANTS Prime = 7
          MaxLen = 3
          Prods = {1, 5}
          Al2s <- MCAl2s
          Be2s = {0, 2, 3}
INVARIANTS OnlyOwnHistory OverwriteForgets NothingHeld
PROPERTY FrameOther
CHECK_DEADLOCK FALSE
