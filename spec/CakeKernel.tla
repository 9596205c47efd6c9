----------------------------- MODULE CakeKernel -----------------------------
(* The micro-kernel contract (C11) as a step machine: the result tile is     *)
(* loaded into accumulators, the depth is walked in runs of Unroll rank-one  *)
(* updates followed by single ones for the remainder, the tile is stored.    *)
(* A strip holds mr values per depth, a B strip nr; what is accumulated is   *)
(* kept symbolically as the bag of depths that reached each cell.            *)
EXTENDS Integers, FiniteSets, Bags, TLC
CONSTANTS Tiles,               \* register tiles <<mr, nr>>
          MaxK, Unroll
VARIABLES t, K, at, acc, tile, reads, pc
kvars == <<t, K, at, acc, tile, reads, pc>>

Cells(x) == (0..x[1]-1) \X (0..x[2]-1)
Old == -1                     \* stands for what C held before
KInit == /\ t \in Tiles /\ K \in 1..MaxK
         /\ at = 0 /\ reads = {} /\ pc = "load"
         /\ tile = [c \in Cells(t) |-> SetToBag({Old})]
         /\ acc  = [c \in Cells(t) |-> EmptyBag]
Load == /\ pc = "load" /\ acc' = tile /\ pc' = "depth"
        /\ UNCHANGED <<t, K, at, tile, reads>>
\* words of the strips that the depths ds need
Words(x, ds) == { <<"A", d*x[1] + r>> : d \in ds, r \in 0..x[1]-1 } \cup { <<"B", d*x[2] + s>> : d \in ds, s \in 0..x[2]-1 }
Update(n) == /\ pc = "depth" /\ at + n <= K
             /\ LET ds == at..(at + n - 1) IN
                /\ acc' = [c \in Cells(t) |-> acc[c] (+) SetToBag(ds)]
                /\ reads' = reads \cup Words(t, ds)
             /\ at' = at + n
             /\ UNCHANGED <<t, K, tile, pc>>
Main == at + Unroll <= K /\ Update(Unroll)
Rest == at + Unroll > K /\ Update(1)
Store == /\ pc = "depth" /\ at = K /\ tile' = acc /\ pc' = "done"
         /\ UNCHANGED <<t, K, at, acc, reads>>
KNext == Load \/ Main \/ Rest \/ Store
KSpec == KInit /\ [][KNext]_kvars /\ WF_kvars(KNext)

\* C' = C + A*B: the old value once and every depth once
Contract == pc = "done" => \A c \in Cells(t) : tile[c] = SetToBag({Old}) (+) SetToBag(0..K-1)
Partial  == pc = "depth" => \A c \in Cells(t) : acc[c] = SetToBag({Old}) (+) SetToBag(0..at-1)
\* exactly the strips are read: mr*K words of A, nr*K words of B
InBounds == reads \subseteq Words(t, 0..K-1)
AllRead  == pc = "done" => Cardinality(reads) = K*(t[1] + t[2])
Ends     == <>(pc = "done")
=============================================================================
