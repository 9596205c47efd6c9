--------------------------- MODULE CakeTraverse ---------------------------
(* The order in which constant-bandwidth blocks are visited.  A product is   *)
(* Mb x Kb x Nb blocks; a loop order names the dimensions from the outermost *)
(* to the innermost (the reduction is innermost for K-first).  Every loop    *)
(* reverses its direction whenever the loop around it takes a step, so the    *)
(* visit is the reflected mixed-radix Gray code: consecutive blocks differ in *)
(* one coordinate by one step.                                               *)
EXTENDS Integers, Sequences

\* radices and block coordinates are <<outer, middle, inner>>
Radix(o, nb) ==        \* nb = [m, k, n] block counts
    CASE o = "KMN" -> <<nb.n, nb.m, nb.k>>
      [] o = "MKN" -> <<nb.n, nb.k, nb.m>>
      [] o = "NKM" -> <<nb.m, nb.k, nb.n>>
Coord(o, b) ==         \* b = [m, k, n] block
    CASE o = "KMN" -> <<b.n, b.m, b.k>>
      [] o = "MKN" -> <<b.n, b.k, b.m>>
      [] o = "NKM" -> <<b.m, b.k, b.n>>
Uncoord(o, c) ==
    CASE o = "KMN" -> [n |-> c[1], m |-> c[2], k |-> c[3]]
      [] o = "MKN" -> [n |-> c[1], k |-> c[2], m |-> c[3]]
      [] o = "NKM" -> [m |-> c[1], k |-> c[2], n |-> c[3]]
Reflect(x, r, turns) == IF turns % 2 = 1 THEN (r - 1) - x ELSE x
\* place of a block in the visit
Place(c, r) ==
    LET q == c[1]*r[2] + Reflect(c[2], r[2], c[1])
    IN q*r[3] + Reflect(c[3], r[3], q)
\* the block at a place
At(i, r) ==
    LET q == i \div r[3]  a == q \div r[2]
    IN <<a, Reflect(q % r[2], r[2], a), Reflect(i % r[3], r[3], q)>>
Total(r) == r[1]*r[2]*r[3]

Dist(b, c) == LET d(x, y) == IF x > y THEN x - y ELSE y - x IN d(b.m, c.m) + d(b.k, c.k) + d(b.n, c.n)
SameA(b, c) == b.m = c.m /\ b.k = c.k
SameB(b, c) == b.k = c.k /\ b.n = c.n
SameC(b, c) == b.m = c.m /\ b.n = c.n
=============================================================================
