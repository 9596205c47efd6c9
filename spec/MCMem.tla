------------------------------- MODULE MCMem -------------------------------
(* The life of one call on the memory automaton: scratch buffers are taken,    *)
(* the operands packed, the blocks computed by interleaved cores (CakeSched's   *)
(* dealing), the result unpacked, the buffers returned.  Words are matrix       *)
(* cells counted in strips.                                                     *)
EXTENDS CakeMem, CakePlan, CakeTraverse
CONSTANTS Cases
VARIABLES g, phase, s, busy, acc
vars == <<objs, g, phase, s, busy, acc>>
\* the schedules, read-only (their own variables are not used here)
W == INSTANCE CakeSched WITH pos <- s, done <- {}, touched <- << >>, loads <- << >>, prevb <- << >>

A == 0  B == 1  C == 2  PA == 3  PB == 4  CP == 5
Phases == <<"take", "packA", "packB", "compute", "unpack", "give", "done">>
StepsOf(ph) == IF ph = "compute" THEN W!Steps(g) ELSE 1
Cell(i, k, n) == i*n + k
Flat(S) == LET RECURSIVE F(_)
               F(T) == IF T = {} THEN << >> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x, x>> \o F(T \ {x})
           IN F(S)
Half(n, c) == { i \in 0..(n - 1) : i % g.p = c }
Acc(c) ==
    CASE phase = "packA" -> LET S == { Cell(i, k, g.K) : i \in Half(g.M, c), k \in 0..(g.K - 1) } IN <<<<c, A, Flat(S), << >>, Flat(S)>>, <<c, PA, << >>, Flat(S), << >>>>>>
      [] phase = "packB" -> LET S == { Cell(k, j, g.N) : k \in Half(g.K, c), j \in 0..(g.N - 1) } IN <<<<c, B, Flat(S), << >>, Flat(S)>>, <<c, PB, << >>, Flat(S), << >>>>>>
      [] phase = "compute" -> LET pts == W!Points(W!Work(g, s, c))
                                  a == Flat({ Cell(q[1], q[3], g.K) : q \in pts })  b == Flat({ Cell(q[3], q[2], g.N) : q \in pts })
                                  cc == Flat({ Cell(q[1], q[2], g.N) : q \in pts })
                              IN <<<<c, PA, a, << >>, a>>, <<c, PB, b, << >>, b>>, <<c, CP, cc, cc, cc>>>>
      [] phase = "unpack" -> LET S == { Cell(i, j, g.N) : i \in Half(g.M, c), j \in 0..(g.N - 1) } IN <<<<c, CP, Flat(S), << >>, Flat(S)>>, <<c, C, << >>, Flat(S), << >>>>>>
      [] OTHER -> << >>
NextPhase(ph) == Phases[(CHOOSE i \in 1..Len(Phases) : Phases[i] = ph) + 1]
Init == /\ g \in Cases /\ phase = "take" /\ s = 0 /\ busy = 0..(g.p - 1) /\ acc = << >>
        /\ objs = (A :> [kind |-> "A", size |-> g.M*g.K, live |-> TRUE, init |-> {}, runs |-> {}]) @@ (B :> [kind |-> "B", size |-> g.K*g.N, live |-> TRUE, init |-> {}, runs |-> {}])
                  @@ (C :> [kind |-> "C", size |-> g.M*g.N, live |-> TRUE, init |-> {}, runs |-> {}])
Take == /\ phase = "take"
        /\ \/ Alloc(PA, g.M*g.K, FALSE)
           \/ PA \in DOMAIN objs /\ Alloc(PB, g.K*g.N, FALSE)
           \/ PB \in DOMAIN objs /\ Alloc(CP, g.M*g.N, TRUE)
        /\ phase' = IF CP \in DOMAIN objs' THEN "packA" ELSE phase
        /\ UNCHANGED <<g, s, busy, acc>>
Core(c) == /\ phase \in {"packA", "packB", "compute", "unpack"} /\ c \in busy
           /\ acc' = acc \o Acc(c) /\ busy' = busy \ {c} /\ UNCHANGED <<objs, g, phase, s>>
Join == /\ phase \in {"packA", "packB", "compute", "unpack"} /\ busy = {}
        /\ Step(acc) /\ acc' = << >> /\ busy' = 0..(g.p - 1)
        /\ IF s + 1 < StepsOf(phase) THEN s' = s + 1 /\ phase' = phase ELSE s' = 0 /\ phase' = NextPhase(phase)
        /\ UNCHANGED g
GiveBack == /\ phase = "give" /\ \E o \in {PA, PB, CP} : Free(o)
            /\ phase' = IF \A o \in {PA, PB, CP} : ~objs'[o].live THEN "done" ELSE phase
            /\ UNCHANGED <<g, s, busy, acc>>
Next == Take \/ Join \/ GiveBack \/ \E c \in busy : Core(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounds == InBounds(acc)
Kept == OperandsKept(acc)
WrittenFirst == InitBeforeRead(acc)
Races == NoRace(acc)
Returned == phase = "done" => \A o \in DOMAIN objs : objs[o].kind = "HEAP" => ~objs[o].live
Ends == <>(phase = "done")
MCCases == { [o |-> o, M |-> m, N |-> 2, K |-> k, p |-> p, pm |-> p, pn |-> 1, bm |-> 1, bk |-> 1, bn |-> 1] :
               o \in {"KMN", "MKN", "NKM", "2D"}, m \in {1, 3}, k \in {1, 3}, p \in {1, 2, 3} }
=============================================================================
