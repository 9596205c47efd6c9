------------------------------ MODULE MCSched ------------------------------
(* Small plans of every order: all block counts per dimension up to the bound, *)
(* with and without remainders, fewer and more strips than cores.             *)
EXTENDS CakeSched
CONSTANTS Ms, Ns, Ks, Ps, Bms, Bks, Bns
Grids(p) == {<<p \div d, d>> : d \in Divisors(p)}
MCCases == { [o |-> o, M |-> m, N |-> n, K |-> k, p |-> p, pm |-> gr[1], pn |-> gr[2], bm |-> bm, bk |-> bk, bn |-> bn] :
               o \in {"KMN", "MKN", "NKM"}, m \in Ms, n \in Ns, k \in Ks, p \in Ps, gr \in {<<1, 1>>}, bm \in Bms, bk \in Bks, bn \in Bns }
           \cup UNION { { [o |-> "2D", M |-> m, N |-> n, K |-> k, p |-> p, pm |-> gr[1], pn |-> gr[2], bm |-> bm, bk |-> bk, bn |-> bn] :
               m \in Ms, n \in Ns, k \in Ks, gr \in Grids(p), bm \in Bms, bk \in Bks, bn \in Bns } : p \in Ps }
=============================================================================
