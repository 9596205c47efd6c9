------------------------------- MODULE MCPlan -------------------------------
(* The planning rules over every small input: shares cover exactly and are   *)
(* even, automatic heights exist, orders are total, the grid is a divisor.   *)
EXTENDS CakePlan, TLC
CONSTANTS MaxD, MaxP, MaxPer
VARIABLE s
Init == s \in [D : 1..MaxD, p : 1..MaxP, per : 1..MaxPer, unit : {1, 2, 3}, E : {1, 2, 3, 5, 9, 14}]
Next == FALSE /\ UNCHANGED s
ShareCovers ==
    LET per == s.per*s.unit  outer == s.p*per  nb == Pieces(s.D, outer) IN
    \A i \in 0..nb-1 :
      LET sh == Share(s.D, outer, per, s.unit, i, s.p)
          len == (sh[1] - 1)*sh[2] + sh[3]
      IN /\ sh[1] \in 1..s.p /\ sh[3] \in 1..sh[2] /\ sh[2] <= per
         /\ len = Min(outer, RoundUp(s.D, s.unit) - i*outer)
         /\ sh[2] \div s.unit = CeilDiv(len \div s.unit, s.p)          \* the even share, rounded up
ShareKCovers ==
    LET outer == s.p*s.per  nb == Pieces(s.D, outer) IN
    \A i \in 0..nb-1 : LET sh == ShareK(s.D, s.p, s.per, i) IN
        sh[1] \in 1..s.p /\ sh[3] \in 1..sh[2] /\ (sh[1] - 1)*sh[2] + sh[3] = PieceSize(s.D, outer, i)
GridIsDivisor == GridCols(s.D, s.E, s.p) \subseteq Divisors(s.p) /\ GridCols(s.D, s.E, s.p) # {}
OrderTotal == LET o == AutoOrders(s.D, s.E, s.per, s.p*s.unit) IN o # {} /\ o \subseteq {"KMN", "MKN", "NKM"}
OrderIsCheapest == \A o \in AutoOrders(s.D, s.E, s.per, s.p*s.unit) :
    \/ \A q \in {"KMN", "MKN", "NKM"} : Traffic(o, s.D, s.E, s.per, s.p*s.unit) <= Traffic(q, s.D, s.E, s.per, s.p*s.unit)
    \/ NearCut(s.per, s.D, s.p*s.unit) \/ NearCut(s.per, s.E, s.p*s.unit)
HeightExists == \A L2 \in {1000, 5000, 20000} : LET m == McL2(2, 4, L2) IN
    /\ IsMcL2(m, 2, 4, L2)
    /\ \E b \in 1..64 : IsBlockHeight(b, s.D, s.p, 2, m)
=============================================================================
