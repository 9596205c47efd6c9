----------------------------- MODULE CakeSched -----------------------------
(* A product executed block by block on p cores.  Each step of the visit is a *)
(* parallel region: the block's work is dealt to the cores, the cores work in *)
(* any interleaving, and the next step starts when all have finished.         *)
(*   K-first: one step per block; a core owns a run of whole row strips.      *)
(*   grid:    one step per block; a core owns a run of row strips crossed     *)
(*            with a run of column strips.                                    *)
(*   M-first (N-first): one step per (depth, column) [(depth, row)] block     *)
(*            pair; a core owns whole row [column] blocks, and goes through   *)
(*            the depth sub-blocks of each one after the other.               *)
(* Dimensions are counted in strips (rows, columns) and depths.               *)
EXTENDS CakePlan, CakeTraverse, TLC

CONSTANT Cases                 \* the plans to explore: [o, M, N, K, p, pm, pn, bm, bk, bn], block sizes per core run
VARIABLES g, pos, busy, done, touched, loads, prevb
vars == <<g, pos, busy, done, touched, loads, prevb>>

(* block extents: what one step of the outer loops covers *)
RowsOf(x) == IF x.o = "MKN" THEN x.bm ELSE IF x.o = "2D" THEN x.pm*x.bm ELSE x.p*x.bm
DepsOf(x) == IF x.o \in {"MKN", "NKM"} THEN x.p*x.bk ELSE x.bk
ColsOf(x) == IF x.o = "2D" THEN x.pn*x.bn ELSE x.bn
Ord(x) == IF x.o = "2D" THEN "KMN" ELSE x.o
NB(x) == [m |-> Pieces(x.M, RowsOf(x)), k |-> Pieces(x.K, DepsOf(x)), n |-> Pieces(x.N, ColsOf(x))]
Rad(x) == Radix(Ord(x), NB(x))
\* the last loop of an M- or N-first order runs in parallel inside one step
StepBlocks(x) == IF x.o \in {"MKN", "NKM"} THEN Rad(x)[3] ELSE 1
Block(x, i) == Uncoord(Ord(x), At(i, Rad(x)))

Run(D, outer, per, i, p, c) ==    \* interval of core c's run of block i, empty if it has none
    LET sh == Share(D, outer, per, 1, i, p)
    IN IF c >= sh[1] THEN {} ELSE (i*outer + c*sh[2])..(i*outer + c*sh[2] + RunLen(sh, c) - 1)
Interval(D, piece, i) == (i*piece)..(Min(D, (i + 1)*piece) - 1)

\* the work of core c in step s, as a set of (rows, columns, depths) boxes; blocks of a parallel last
\* loop are dealt in even contiguous runs
Dealt(n, p, c) == LET q == n \div p  r == n % p IN
    IF c < r THEN (c*(q + 1))..(c*(q + 1) + q) ELSE (r*(q + 1) + (c - r)*q)..(r*(q + 1) + (c - r)*q + q - 1)
Work(x, s, c) ==
    IF x.o = "KMN" THEN
        LET b == Block(x, s) IN {<<Run(x.M, RowsOf(x), x.bm, b.m, x.p, c), Interval(x.N, x.bn, b.n), Interval(x.K, x.bk, b.k)>>}
    ELSE IF x.o = "2D" THEN
        LET b == Block(x, s)
            su == Share(x.N, ColsOf(x), x.bn, 1, b.n, x.pn)[1]       \* columns of the grid in use
        IN {<<Run(x.M, RowsOf(x), x.bm, b.m, x.pm, c \div su), Run(x.N, ColsOf(x), x.bn, b.n, x.pn, c % su), Interval(x.K, x.bk, b.k)>>}
    ELSE { LET b == Block(x, s*StepBlocks(x) + i)
           IN <<Interval(x.M, RowsOf(x), b.m), Interval(x.N, x.bn, b.n), Interval(x.K, DepsOf(x), b.k)>> : i \in Dealt(StepBlocks(x), x.p, c) }
Points(w) == UNION { {<<i, j, k>> : i \in b[1], j \in b[2], k \in b[3]} : b \in w }
Cells(w) == UNION { {<<i, j>> : i \in b[1], j \in b[2]} : b \in w }
Steps(x) == Total(Rad(x)) \div StepBlocks(x)

Init == /\ g \in Cases
        /\ pos = 0 /\ busy = 0..(g.p - 1) /\ done = {} /\ touched = [c \in 0..(g.p - 1) |-> {}]
        /\ loads = [a |-> 0, b |-> 0] /\ prevb = << >>
\* core c does its share of the current step
Core(c) == /\ pos < Steps(g) /\ c \in busy
           /\ LET w == Work(g, pos, c) IN
              /\ Assert(Points(w) \cap done = {}, <<"done twice", g, pos, c>>)
              /\ done' = done \cup Points(w)
              /\ touched' = [touched EXCEPT ![c] = Cells(w)]
           /\ busy' = busy \ {c}
           /\ UNCHANGED <<g, pos, loads, prevb>>
\* all cores have finished: the next step
Join == /\ pos < Steps(g) /\ busy = {}
        /\ pos' = pos + 1 /\ busy' = 0..(g.p - 1) /\ touched' = [c \in 0..(g.p - 1) |-> {}]
        /\ LET b == Block(g, pos) IN
           /\ loads' = [a |-> loads.a + (IF prevb # << >> /\ SameA(prevb[1], b) THEN 0 ELSE 1), b |-> loads.b + (IF prevb # << >> /\ SameB(prevb[1], b) THEN 0 ELSE 1)]
           /\ prevb' = <<Block(g, (pos + 1)*StepBlocks(g) - 1)>>
        /\ UNCHANGED <<g, done>>
Next == Join \/ \E c \in busy : Core(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* --- properties
Everything == (0..(g.M - 1)) \X (0..(g.N - 1)) \X (0..(g.K - 1))
CoverAtEnd == pos = Steps(g) => done = Everything
NoRace == \A c, d \in 0..(g.p - 1) : c # d => touched[c] \cap touched[d] = {}
\* no core is given more than the rounded-up even share
Strips(w, d) == { x[d] : x \in Cells(w) }
Even == \A c \in 0..(g.p - 1) :
    CASE g.o = "KMN" -> Cardinality({x[1] : x \in touched[c]}) <= CeilDiv(Cardinality(Interval(g.M, RowsOf(g), Block(g, Min(pos, Steps(g) - 1)).m)), g.p)
      [] g.o = "2D" -> LET b == Block(g, Min(pos, Steps(g) - 1)) IN
                       /\ Cardinality({x[1] : x \in touched[c]}) <= CeilDiv(Cardinality(Interval(g.M, RowsOf(g), b.m)), g.pm)
                       /\ Cardinality({x[2] : x \in touched[c]}) <= CeilDiv(Cardinality(Interval(g.N, ColsOf(g), b.n)), g.pn)
      [] OTHER -> Cardinality(Dealt(StepBlocks(g), g.p, c)) <= CeilDiv(StepBlocks(g), g.p)
\* a visit is a walk between neighbours, and the inverse of Place
Neighbours == \A i \in 1..(Total(Rad(g)) - 1) : Dist(Block(g, i - 1), Block(g, i)) = 1
PlaceInverse == \A i \in 0..(Total(Rad(g)) - 1) : Place(At(i, Rad(g)), Rad(g)) = i
\* K-first: a result block is finished before the next one is begun
Complete == Ord(g) = "KMN" /\ pos > 0 /\ pos < Steps(g) =>
    LET b == Block(g, pos)  a == Block(g, pos - 1) IN
    ~SameC(a, b) => \A i \in Interval(g.M, RowsOf(g), a.m), j \in Interval(g.N, ColsOf(g), a.n), k \in 0..(g.K - 1) : <<i, j, k>> \in done
\* surfaces of A and B are loaded once per block that needs a new one: the turns save Nb - 1 and (Mb - 1)*Nb loads
Reuse == Ord(g) = "KMN" /\ pos = Steps(g) => LET n == NB(g) IN
    /\ loads.a = Total(Rad(g)) - (n.n - 1)
    /\ loads.b = Total(Rad(g)) - n.n*(n.m - 1)
Progress == <>(pos = Steps(g))
=============================================================================
