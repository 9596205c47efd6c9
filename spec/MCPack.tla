------------------------------- MODULE MCPack -------------------------------
(* Every layout is a bijection into the reported size, for every small shape *)
(* and blocking: distinct elements live in distinct places inside the packed *)
(* size, and the places left over are exactly the padding.                   *)
EXTENDS CakePack, TLC
CONSTANTS Ms, Ns, Ks, Ps, Mr, Nr, Mcs, Kcs, Ncs
VARIABLE g
Geoms == [sch : {"KMN", "MKN", "NKM"}, M : Ms, N : Ns, K : Ks, p : Ps, mr : {Mr}, nr : {Nr}, mc : Mcs, kc : Kcs, nc : Ncs]
Init == g \in Geoms
Next == FALSE /\ UNCHANGED g
Inj(rows, cols, size, Addr(_, _)) ==
    LET s == {Addr(i, j) : i \in 0..rows-1, j \in 0..cols-1}
    IN Cardinality(s) = rows*cols /\ \A x \in s : x >= 0 /\ x < size
BijA == Inj(g.M, g.K, SizeA(g), LAMBDA i, k : AddrA(g, i, k))
BijB == Inj(g.K, g.N, SizeB(g), LAMBDA k, j : AddrB(g, k, j))
BijC == Inj(g.M, g.N, SizeC(g), LAMBDA i, j : AddrC(g, i, j))
\* padding is less than one register tile in each padded direction
PadSmall == PadM(g) - g.M < g.mr /\ PadN(g) - g.N < g.nr
\* every whole strip of A (mr rows at one depth) is contiguous, likewise B and rows of C tiles
Strips == /\ \A i \in 0..g.M-1, k \in 0..g.K-1 : AddrA(g, i, k) = AddrA(g, i - (i % g.mr), k) + (i % g.mr)
          /\ \A k \in 0..g.K-1, j \in 0..g.N-1 : AddrB(g, k, j) = AddrB(g, k, j - (j % g.nr)) + (j % g.nr)
          /\ \A i \in 0..g.M-1, j \in 0..g.N-1 : AddrC(g, i, j) = AddrC(g, i - (i % g.mr), j - (j % g.nr)) + (i % g.mr)*g.nr + (j % g.nr)
=============================================================================
