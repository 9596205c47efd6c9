SPECIFICATION GSpec
CONSTANTS Prime = 32749
          Depth = 14
          Fns = {"gemm", "online", "2d", "2dsmall", "test"}
          Scheds = {"KMN", "MKN", "NKM", "NA"}
          Dims <- MDims
          Threads = {1, 2, 3, 4, 5, 8}
          Al2s <- MAl2s
          Be2s <- MBe2s
          NBufs = 3
          NCtxs = 3
INVARIANT GDone
CHECK_DEADLOCK FALSE
