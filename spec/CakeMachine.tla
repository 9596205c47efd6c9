---------------------------- MODULE CakeMachine ----------------------------
(* The machine description: what a context must say, given what the system's *)
(* topology tool reports.  A report is [cpus, threads, sockets, model, a1,   *)
(* u1, a2, u2, a3, u3]: amounts in tenths of the unit, -1 (0 for threads and  *)
(* sockets) where the tool reports nothing.  a1 and a2 are the sizes of one   *)
(* of the private caches, a3 that of the shared ones together.                *)
EXTENDS Integers, TLC

MaxInt == 2147483647
KiB == 1024
MiB == 1048576
Atleast1(x) == IF x < 1 THEN 1 ELSE x
Cores(r) == Atleast1(r.cpus \div (Atleast1(r.threads)*Atleast1(r.sockets)))

\* floor(tenths/10 * unit), clamped to the integer range
Bytes(tenths, unit) ==
    LET q == tenths \div 10  f == tenths % 10
    IN CASE unit = "K" -> q*KiB + (f*KiB) \div 10
         [] unit = "M" -> IF q >= 2048 THEN MaxInt ELSE q*MiB + (f*MiB) \div 10
         [] unit = "G" -> IF q >= 2 THEN MaxInt ELSE q*1073741824 + f*107374182 + (f*4) \div 10

\* processor models with a built-in entry: L1, L2, L3 (model numbers as the tool prints them)
Builtin == ( 1  :> <<32*KiB, 512*KiB, 64*MiB>>)   @@ (3   :> <<32*KiB, 32*KiB, 1*MiB>>)
        @@ ( 4  :> <<16*KiB, 16*KiB, 512*KiB>>)   @@ (17  :> <<32*KiB, 512*KiB, 4*MiB>>)
        @@ ( 33 :> <<32*KiB, 512*KiB, 64*MiB>>)   @@ (49  :> <<32*KiB, 512*KiB, 128*MiB>>)
        @@ ( 69 :> <<32*KiB, 256*KiB, 4*MiB>>)    @@ (85  :> <<32*KiB, 1024*KiB, 36608*KiB>>)
        @@ (142 :> <<32*KiB, 256*KiB, 8*MiB>>)    @@ (165 :> <<32*KiB, 256*KiB, 20*MiB>>)
Fallback == <<32*KiB, 32*KiB, 512*KiB>>

Cache(r, level) ==
    LET a == <<r.a1, r.a2, r.a3>>[level]  u == <<r.u1, r.u2, r.u3>>[level]
    IN IF r.model \in DOMAIN Builtin THEN Builtin[r.model][level]
       ELSE IF a < 0 THEN Fallback[level]
       ELSE Bytes(a, u)
=============================================================================
