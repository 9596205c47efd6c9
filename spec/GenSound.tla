------------------------------ MODULE GenSound ------------------------------
(* Soundness of the projection used by the trace specifications, checked by  *)
(* TLC over all shapes up to MaxDim and several seeds: the fast form equals   *)
(* the textbook product, and a single wrong, missing or repeated term, or a   *)
(* swapped pair of rows, changes the projection.                              *)
EXTENDS Gen, FiniteSets
CONSTANTS MaxDim, Seeds
VARIABLE q
Init == q \in [M : 1..MaxDim, N : 1..MaxDim, K : 1..MaxDim, sa : Seeds, sb : Seeds]
Next == UNCHANGED q
Prod(i, j) == ProdEntry(q.K, q.sa, q.sb, i, j)
FastEqualsTextbook == FpOfProduct(q.M, q.N, q.K, q.sa, q.sb) = FpOf(q.M, q.N, Prod)
CFastEqualsTextbook == FpOfC(q.M, q.N, q.sa) = FpOf(q.M, q.N, LAMBDA i, j : CVal(q.sa, i, j))
Linear == \A al \in {-1, 2}, be \in {-2, 1} :
    FpOf(q.M, q.N, LAMBDA i, j : al*Prod(i, j) + be*CVal(q.sb, i, j))
      = (MulP(al, FpOfProduct(q.M, q.N, q.K, q.sa, q.sb)) + MulP(be, FpOfC(q.M, q.N, q.sb))) % P
OneOffShows == \A i \in 0..q.M-1, j \in 0..q.N-1 :
    FpOf(q.M, q.N, LAMBDA r, c : IF r = i /\ c = j THEN Prod(r, c) + 1 ELSE Prod(r, c)) # FpOf(q.M, q.N, Prod)
=============================================================================
