SPECIFICATION KSpec
CONSTANTS Tiles <- MCTiles
          MaxK = 11
          Unroll = 4
INVARIANTS Contract Partial InBounds AllRead
PROPERTY Ends
CHECK_DEADLOCK FALSE
