------------------------------ MODULE CakePlan ------------------------------
(* How a product is cut into constant-bandwidth blocks: the cache budgets of *)
(* automatic blocks, the choice of loop order, the processing grid, and the  *)
(* partition of the three dimensions into blocks, cores and register tiles.  *)
(* Everything is stated by properties of the numbers (largest multiple that  *)
(* fits, exact cover), not by the code's way of computing them.              *)
EXTENDS Integers, Sequences, FiniteSets

CeilDiv(a, b) == (a + b - 1) \div b
RoundUp(a, b) == CeilDiv(a, b)*b
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

(* ------------------------------------------------ cache budgets (auto) *)
\* two A blocks, two B strips and two C strips of height x in half of L2, in floats
FitsL2(x, nr, L2) == x*(x + 2*nr) <= L2 \div 8
IsMcL2(x, mr, nr, L2) == x % mr = 0 /\ FitsL2(x, nr, L2) /\ ~FitsL2(x + mr, nr, L2)
FitsL3(x, nc, L3) == x*x <= (L3 \div 8) \div (nc*(2 + nc))
IsMcL3(x, mr, nc, L3) == x % mr = 0 /\ FitsL3(x, nc, L3) /\ ~FitsL3(x + mr, nc, L3)
\* bisection: the largest multiple of u with property F, given F downward closed and F(0)
Largest(n, u, F(_)) ==             \* F(n*u) fails
    LET RECURSIVE R(_, _)
        R(lo, hi) == IF hi - lo <= 1 THEN lo*u
                     ELSE LET mid == (lo + hi) \div 2 IN IF F(mid*u) THEN R(mid, hi) ELSE R(lo, mid)
    IN R(0, n)
McL2(mr, nr, L2) == Largest(11600 \div mr + 1, mr, LAMBDA x : FitsL2(x, nr, L2))
McL3(mr, nc, L3) == Largest(16400 \div mr + 1, mr, LAMBDA x : FitsL3(x, nc, L3))

\* the block heights an automatic plan may use for M rows on p cores: the budget's height, or (if p
\* such blocks are taller than the matrix) the least heights for which p blocks still hold it -- up to
\* one register tile of slack
IsBlockHeight(b, M, p, mr, mcL2) ==
    /\ b % mr = 0 /\ b > 0
    /\ IF M < p*mcL2 THEN (p*b >= M \/ b = mr) /\ p*(b - mr) <= M /\ b <= Max(mcL2, mr)
       ELSE b = mcL2

\* block width: within alpha*p*b where alpha = mcL3/mcL2 (at least one register tile)
IsBlockWidth(n, b, p, nr, mcL2, mcL3) == n % nr = 0 /\ n > 0 /\ (n = nr \/ n*mcL2 <= mcL3*p*b)

(* ------------------------------------------------------ loop order *)
\* external traffic (in floats, over a common denominator) is least for M-first when the depth is below
\* the cut 2M/(1 + M/(p*b)), for N-first when below 2N/(1 + N/(p*b)).
BelowCut(K, D, pb) == K*(pb + D) <= 2*D*pb
\* external traffic of the three orders with cubic blocks of edge pb, times pb (the reduction surface is
\* moved once; a partial surface that leaves the cache is written and read back)
TrafficKMN(M, N, K, pb) == M*N*pb + 2*M*N*K
TrafficMKN(M, N, K, pb) == K*N*pb + M*N*K + 2*M*N*K - M*N*pb
TrafficNKM(M, N, K, pb) == K*M*pb + M*N*K + 2*M*N*K - M*N*pb
Traffic(o, M, N, K, pb) == IF o = "KMN" THEN TrafficKMN(M, N, K, pb) ELSE IF o = "MKN" THEN TrafficMKN(M, N, K, pb) ELSE TrafficNKM(M, N, K, pb)
\* floating point may decide either way within a hair of the cut unless the cut is computed exactly
RECURSIVE IsPow2(_)
IsPow2(x) == x = 1 \/ (x % 2 = 0 /\ IsPow2(x \div 2))
NearCut(K, D, pb) == LET d == Abs(K*(pb + D) - 2*D*pb) IN
    IF d = 0 THEN ~IsPow2(pb) ELSE d <= (K*(pb + D)) \div 2000000
MayBelow(K, D, pb) == IF NearCut(K, D, pb) THEN {TRUE, FALSE} ELSE {BelowCut(K, D, pb)}
\* the set of admissible orders (a singleton except within a hair of a cut)
AutoOrders(M, N, K, pb) ==
    UNION { UNION { { IF N <= M /\ a THEN "MKN" ELSE IF M <= N /\ b THEN "NKM" ELSE "KMN" } : a \in MayBelow(K, M, pb) } : b \in MayBelow(K, N, pb) }
ShapeOrder(M, N, K) ==
    IF M >= 2*K /\ M >= N THEN "MKN" ELSE IF K >= M /\ K >= N THEN "KMN" ELSE IF N >= 2*K /\ N >= M THEN "NKM" ELSE "KMN"

(* ------------------------------------------------------ processing grid *)
Divisors(p) == {d \in 1..p : p % d = 0}
\* round(sqrt(p*N/M)), half away from zero, cut off at [1, p]; both neighbours within float resolution of a half
IdealCols(M, N, p) ==
    LET R(r) == (2*r + 1)*(2*r + 1)*M                    \* 4*p*N below R(r)  <=>  root rounds to at most r
        Is(r, w) == (w \/ r = p \/ 4*p*N < R(r)) /\ (r = 1 \/ 4*p*N >= R(r-1))
        exact == CHOOSE r \in 1..p : (r = p \/ 4*p*N < R(r)) /\ (r = 1 \/ 4*p*N >= R(r-1))
        close(r) == r < p /\ Abs(4*p*N - R(r)) # 0 /\ Abs(4*p*N - R(r)) <= (4*p*N) \div 1000000
    IN {exact} \cup (IF close(exact) THEN {exact + 1} ELSE {}) \cup (IF exact > 1 /\ close(exact - 1) THEN {exact - 1} ELSE {})
ClosestDivisor(p, r) ==
    CHOOSE d \in Divisors(p) : \A e \in Divisors(p) : Abs(d - r) < Abs(e - r) \/ (Abs(d - r) = Abs(e - r) /\ d <= e)
GridCols(M, N, p) == {ClosestDivisor(p, r) : r \in IdealCols(M, N, p)}
\* only the ratio of the dimensions matters, so shapes of any size are judged by their reduced ratio
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
GridColsOf(M, N, p) == LET q == Gcd(M, N) IN GridCols(M \div q, N \div q, p)

(* ------------------------------------------------------ partition *)
\* D units (rows, columns or depths) cut into pieces of `piece`; the last holds the rest
Pieces(D, piece) == CeilDiv(D, piece)
PieceSize(D, piece, i) == Min(piece, D - i*piece)

\* Rows of one K-first block of `outer` = p*mc rows, shared by the cores in whole register tiles:
\* a full block gives every core mc rows; the last block gives its tiles out in equal runs.
Share(D, outer, per, unit, i, p) ==      \* <<cores used, run length, length of the last run>>, in units of elements
    IF (i + 1)*outer <= D THEN <<p, per, per>>
    ELSE LET t == CeilDiv(D - i*outer, unit)
             c == CeilDiv(t, p)
             u == CeilDiv(t, c)
         IN <<u, c*unit, (t - (u - 1)*c)*unit>>
\* Depths of one M- or N-first block of p*kc, shared by the p sub-blocks of the accumulation chain
ShareK(K, p, kc, i) ==
    IF (i + 1)*p*kc <= K THEN <<p, kc, kc>>
    ELSE LET t == K - i*p*kc
             c == CeilDiv(t, p)
             u == CeilDiv(t, c)
         IN <<u, c, t - (u - 1)*c>>
RunLen(sh, core) == IF core = sh[1] - 1 THEN sh[3] ELSE sh[2]
RunStart(sh, core) == core*sh[2]
=============================================================================
