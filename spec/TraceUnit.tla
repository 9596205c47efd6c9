----------------------------- MODULE TraceUnit -----------------------------
(* Judges recorded micro-kernel calls (C11), transposes (C12), machine        *)
(* queries (C13), checker calls (C18) and resources of the other calls (C07). *)
EXTENDS CakeMachine, Gen, Sequences, FiniteSets, Json
Trace == ndJsonDeserialize("trace.ndjson")
CONSTANTS Judge,              \* which part of an observation this run judges
          Mrs, Nrs            \* the generated register tiles, in generation order
Judges(a) == a \in Judge
VARIABLES l, ctx
vars == <<l, ctx>>
Init == l = 1 /\ ctx = << >>
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TSession == Is("session") /\ ctx' = << >>
TCtx == Is("ctx") /\ ctx' = (Trace[l].c :> Trace[l]) @@ ctx
TrMrs == <<6, 8>>
TrNrs == <<16, 32>>
ArmMrs == <<8, 10>>
ArmNrs == <<12, 24>>
WideMrs == <<6, 8, 10, 12>>
WideNrs == <<16, 32, 48>>
Twice(x) == (2*x) % P

\* C' = C + A*B on one register tile, nothing else touched; the kernel is the one the context names
TKern == /\ Is("kern") /\ UNCHANGED ctx
         /\ LET e == Trace[l] IN
            /\ e.mr = ctx[e.c].mr /\ e.nr = ctx[e.c].nr
            /\ e.bad = 0 /\ e.frame
            /\ e.fp2 = Twice(FpOfProduct(e.mr, e.nr, e.k, e.sa, e.sb) + FpOfC(e.mr, e.nr, e.sc))

\* the source is A[i][k] (K x N, row major); its transpose is N x K
TXpose == /\ Is("xpose") /\ UNCHANGED ctx
          /\ LET e == Trace[l] s == e.sa IN
             /\ e.bad = 0 /\ e.frame
             /\ e.fp2 = Twice(MulP(UDot(e.N, 4*s+1), VDot(e.K, 4*s)) + MulP(UDot(e.N, 4*s+3), VDot(e.K, 4*s+2)))

\* a source of 2^31 elements and more, zero but for the cells <<row, column, value>>
TFarX == /\ Is("farx") /\ UNCHANGED ctx
         /\ LET e == Trace[l] IN
            /\ e.bad = 0
            /\ { e.got[i] : i \in 1..Len(e.got) } = { <<e.cells[i][2], e.cells[i][1], e.cells[i][3]>> : i \in 1..Len(e.cells) }

MachineOk(e) ==
    /\ e.ncores = Cores(e) /\ e.nphys = Cores(e)
    /\ e.s1 = Cache(e, 1) /\ e.s2 = Cache(e, 2) /\ e.s3 = Cache(e, 3)
    /\ e.L1 = Cache(e, 1)
    /\ IF e.torch THEN e.L2 = e.tl2 /\ e.L3 = e.tl3 ELSE e.L2 = Cache(e, 2) /\ e.L3 = Cache(e, 3)
    /\ e.mmap + 1 \in DOMAIN Mrs /\ Mrs[e.mmap + 1] = e.mr
    /\ e.nmap + 1 \in DOMAIN Nrs /\ Nrs[e.nmap + 1] = e.nr
    /\ e.mr2 = e.tm /\ e.nr2 = e.tn
    /\ e.mmap2 + 1 \in DOMAIN Mrs /\ Mrs[e.mmap2 + 1] = e.tm
    /\ e.nmap2 + 1 \in DOMAIN Nrs /\ Nrs[e.nmap2 + 1] = e.tn
TMachine == /\ Is("machine") /\ UNCHANGED ctx
            /\ LET e == Trace[l] IN
               /\ Judges("value") => MachineOk(e)
               \* the query hands the caller one block and keeps nothing
               /\ Judges("res") => e.kept = 1 /\ e.fds = 0 /\ e.popens = 0

\* an error larger than 0.001 (10 units), an infinity or a not-a-number anywhere makes the result wrong
Bad(d) == d > 10 \/ d < -10
TChk == /\ Is("chk") /\ UNCHANGED ctx
        /\ LET e == Trace[l]
               wrong == \/ \E q \in 1..Len(e.err) : Bad(e.err[q][3])
                        \/ e.many > 0 /\ Bad(e.md)             \* however many they are
                        \/ e.both = 99999                      \* equal infinities are equal, not-a-numbers never
           IN /\ Judges("value") => e.wrong = wrong /\ e.frame
              /\ Judges("res") => e.leakb = 0 /\ e.badfree = 0 /\ e.fds = 0

TRes == /\ Is("res") /\ UNCHANGED ctx
        /\ LET e == Trace[l] IN Judges("res") => e.kept = e.expect /\ e.own /\ e.badfree = 0 /\ e.popens = 0 /\ e.fds = 0
Next == TSession \/ TCtx \/ TKern \/ TXpose \/ TFarX \/ TMachine \/ TChk \/ TRes
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
