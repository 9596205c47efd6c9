--------------------------- MODULE CakeTranspose ---------------------------
(* The transpose (C12) as work of several threads: the depth is walked in    *)
(* runs of kt rows; in each the column blocks of nt columns are dealt to the *)
(* threads in any order, and a thread moves its block tile by tile, whole    *)
(* register tiles and cut ones at the edges.  At ends as the transpose       *)
(* whatever the blocks, the threads and the interleaving.                    *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS R,                    \* side of a register tile
          Ks, Ns, Kts, Nts      \* shapes and requested blocks to explore
VARIABLES g, k, todo, cur, At
tvars == <<g, k, todo, cur, At>>

Min(a, b) == IF a < b THEN a ELSE b
CeilD(a, b) == (a + b - 1) \div b
\* a requested block is cut to whole register tiles, at least one
Blk(x) == LET b == (x \div R)*R IN IF b = 0 THEN R ELSE b
Void == <<-1, -1>>
\* register tiles of column block n in the current run of rows, that are inside the matrix
TilesOf(x, kk, n) == { <<i, j>> \in { <<kk + a*R, n + b*R>> : a \in 0..(Blk(x.Kt) \div R - 1), b \in 0..(Blk(x.Nt) \div R - 1) } : i < x.K /\ j < x.N }
ColBlocks(x) == { b*Blk(x.Nt) : b \in 0..(CeilD(x.N, Blk(x.Nt)) - 1) }
\* source elements of the tile at <<i, j>>, and where the transpose has them
Els(x, tl) == (tl[1]..(Min(x.K, tl[1] + R) - 1)) \X (tl[2]..(Min(x.N, tl[2] + R) - 1))
Place(x, e) == e[2]*x.K + e[1]

TInit == /\ g \in [K : Ks, N : Ns, Kt : Kts, Nt : Nts]
         /\ k = 0 /\ todo = ColBlocks(g) /\ cur = {}
         /\ At = [a \in 0..(g.K*g.N - 1) |-> Void]
\* a thread takes a column block of this run
Take(n) == /\ n \in todo /\ todo' = todo \ {n}
           /\ cur' = cur \cup TilesOf(g, k, n)
           /\ UNCHANGED <<g, k, At>>
\* some thread moves one of its tiles
Move(tl) == /\ tl \in cur /\ cur' = cur \ {tl}
            /\ LET ps == { Place(g, e) : e \in Els(g, tl) } IN
               /\ Assert(ps \subseteq DOMAIN At, <<"outside", g, tl>>)
               /\ Assert(\A q \in ps : At[q] = Void, <<"written twice", g, tl>>)
               /\ At' = [q \in DOMAIN At |-> IF q \in ps THEN CHOOSE e \in Els(g, tl) : Place(g, e) = q ELSE At[q]]
            /\ UNCHANGED <<g, k, todo>>
NextRun == /\ todo = {} /\ cur = {} /\ k + Blk(g.Kt) < g.K
           /\ k' = k + Blk(g.Kt) /\ todo' = ColBlocks(g)
           /\ UNCHANGED <<g, cur, At>>
TNext == NextRun \/ (\E n \in todo : Take(n)) \/ (\E tl \in cur : Move(tl))
TSpec == TInit /\ [][TNext]_tvars /\ WF_tvars(TNext)
Finished == todo = {} /\ cur = {} /\ k + Blk(g.Kt) >= g.K
Transposed == Finished => \A i \in 0..(g.K - 1), j \in 0..(g.N - 1) : At[j*g.K + i] = <<i, j>>
Ends == <>Finished
=============================================================================
