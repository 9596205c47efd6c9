----------------------------- MODULE MCMachine -----------------------------
(* The description is well formed for every report: at least one core, cache *)
(* sizes that never exceed what was reported nor the integer range, grow with *)
(* the amount, and one unit of a kind equals 1024 of the next smaller.        *)
EXTENDS CakeMachine
VARIABLE r
Reports == [cpus : {0, 1, 2, 3, 8, 12, 64, 256}, threads : {0, 1, 2, 4, 8}, sockets : {0, 1, 2, 4}, model : {-1, 0, 1, 85, 165, 166},
            a1 : {-1, 0, 5, 480}, u1 : {"K"}, a2 : {-1, 3, 12, 20470, 20480}, u2 : {"K", "M", "G"}, a3 : {-1, 15, 20}, u3 : {"M", "G"}]
Init == r \in Reports
Next == FALSE /\ UNCHANGED r
CoresOk == /\ Cores(r) >= 1
           /\ Cores(r) > 1 => Cores(r)*Atleast1(r.threads)*Atleast1(r.sockets) <= r.cpus
CacheOk == \A l \in 1..3 : Cache(r, l) >= 0 /\ Cache(r, l) <= MaxInt
UnitOk == r.a2 >= 0 => /\ r.a2 <= 20000 => Bytes(r.a2, "K") <= Bytes(r.a2, "M")
                       /\ Bytes(r.a2, "M") <= Bytes(r.a2, "G")
                       /\ Bytes(r.a2 + 1, r.u2) >= Bytes(r.a2, r.u2)
KilosAreMegas == Bytes(10240, "K") = Bytes(10, "M") /\ Bytes(10240, "M") = Bytes(10, "G") /\ Bytes(5, "G") = Bytes(5120, "M")
BuiltinWins == r.model \in DOMAIN Builtin => \A l \in 1..3 : Cache(r, l) = Builtin[r.model][l]
=============================================================================
