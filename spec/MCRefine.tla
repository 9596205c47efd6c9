------------------------------ MODULE MCRefine ------------------------------
(* Blocked parallel execution refines the public interface: seen from the    *)
(* caller, the steps of CakeSched -- whatever the order, the blocks, the     *)
(* dealing to the cores and their interleaving -- are CakeApi's one atomic   *)
(* Gemm, which happens when the last core of the last step has finished.     *)
(* One strip is one row or column here; operands are Gen's.                  *)
EXTENDS CakeSched
CONSTANTS Ms, Ns, Ks, Ps, Seeds, Factors
VARIABLE call                   \* the arguments that do not steer the schedule
rvars == <<vars, call>>
G == INSTANCE Gen
MCFactors == {<<2, 0>>, <<2, 2>>, <<-1, 4>>}
RCases == { [o |-> o, M |-> m, N |-> n, K |-> k, p |-> p, pm |-> p, pn |-> 1, bm |-> bm, bk |-> bk, bn |-> 1] :
              o \in {"KMN", "MKN", "NKM", "2D"}, m \in Ms, n \in Ns, k \in Ks, p \in Ps, bm \in {1, 2}, bk \in {1, 2} }

\* one multiply-add, as it shows in the projection of the result
Term(t) == G!MulP(G!MulP(G!U(t[1]), G!V(t[2])), G!AVal(call.sa, t[1], t[3])*G!AVal(call.sb, t[3], t[2]))
Accumulated == G!FoldFunction(LAMBDA x, y : (x + y) % G!P, 0, [t \in done |-> Term(t)])
Old2 == (2*G!FpOfC(g.M, g.N, call.sc)) % G!P

Api == INSTANCE CakeApi WITH Prime <- G!P, ctx <- << >>, lib <- [blocks |-> 0, fds |-> 0], cval <- << >>
Shown == IF pos = Steps(g) THEN Api!Axpby2(call.al2, Accumulated, call.be2, Old2) ELSE Old2
Seen == INSTANCE CakeApi WITH Prime <- G!P, ctx <- << >>, lib <- [blocks |-> 0, fds |-> 0], cval <- (1 :> Shown)

RInit == Init /\ call \in { [sa |-> s, sb |-> s + 1, sc |-> 3, al2 |-> f[1], be2 |-> f[2]] : s \in Seeds, f \in Factors }
RNext == Next /\ UNCHANGED call
RSpec == RInit /\ [][RNext]_rvars

Product == G!FpOfProduct(g.M, g.N, g.K, call.sa, call.sb)
Refines == [][Seen!Gemm(1, Product, call.al2, call.be2)]_Shown
=============================================================================
