------------------------------ MODULE TraceApi ------------------------------
(* Trace validation of recorded public calls against CakeApi.  One event per *)
(* call; the logged arguments are bound, the action is CakeApi's, and the    *)
(* logged projection must be the one the action yields.                      *)
EXTENDS CakeApi, Gen, Json, Sequences
Trace == ndJsonDeserialize("trace.ndjson")
\* which parts of the observation this run judges (a property's own part)
CONSTANT Judge
Judges(a) == a \in Judge
VARIABLE l
traceVars == <<apiVars, l>>

TraceInit == ApiInit /\ l = 1
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

\* each session is a fresh process
TSession == /\ Is("session") /\ cval' = << >> /\ ctx' = << >> /\ lib' = [blocks |-> 0, fds |-> 0]

Geom(ev) == [mr |-> ev.mr, nr |-> ev.nr, L1 |-> ev.L1, L2 |-> ev.L2, L3 |-> ev.L3, ncores |-> ev.ncores]
TCtx == Is("ctx") /\ OpenCtx(Trace[l].c, Geom(Trace[l]))

OldC(ev) == IF ~ev.fresh THEN cval[ev.cb]
            ELSE IF ev.cold = "nan" THEN Nan
            ELSE IF ev.cold = "zero" THEN 0
            ELSE (2*FpOfC(ev.M, ev.N, ev.sc)) % P
\* a fresh buffer is filled by the caller and passed in one step
TCall == /\ Is("call")
         /\ LET ev == Trace[l]
                b  == ev.cb
                prod == FpOfProduct(ev.M, ev.N, ev.K, ev.sa, ev.sb)
                new == Axpby2(ev.al2, prod, ev.be2, OldC(ev))
            IN /\ ev.c >= 0 => ev.c \in DOMAIN ctx
               /\ ~ev.fresh => b \in DOMAIN cval
               /\ cval' = (b :> new) @@ cval
               /\ ctx' = ctx
               /\ Judges("value") => (IF new = Nan THEN ev.bad = ev.M*ev.N ELSE ev.bad = 0 /\ ev.fp2 = new)   \* the product, exactly
               /\ Judges("frame") => ev.frame          \* nothing outside the operands was written
               /\ Judges("ctx") => ev.ctxkept          \* the caller's context is as it was
               /\ Judges("res") => (ev.leakb = 0 /\ ev.badfree = 0 /\ ev.fds = 0 /\ ev.popens = 0)
               /\ lib' = lib                           \* everything acquired was returned
TDet == /\ Is("det") /\ \A i \in 1..Len(Trace[l].bits) : Trace[l].bits[i] = Trace[l].bits[1]
        /\ UNCHANGED apiVars
\* a call with operands too large to compare returned, with nothing outside the operands touched
TBig == Is("big") /\ Trace[l].ok /\ UNCHANGED apiVars
\* operands of which all but a few elements (listed as <<row, column, value>>) are zero: so is the product, entry by entry
RECURSIVE SumSet(_)
SumSet(ps) == IF ps = {} THEN 0 ELSE LET x == CHOOSE y \in ps : TRUE IN x[1][3]*x[2][3] + SumSet(ps \ {x})
SparseProduct(a, b) ==
    LET pairs == {x \in Range(a) \X Range(b) : x[1][2] = x[2][1]}
        cells == {<<x[1][1], x[2][2]>> : x \in pairs}
        at(i, j) == LET ps == {x \in pairs : x[1][1] = i /\ x[2][2] = j} IN SumSet(ps)
    IN  {<<c[1], c[2], at(c[1], c[2])>> : c \in cells}
TVast == /\ Is("vast") /\ UNCHANGED apiVars
         /\ LET ev == Trace[l] IN Judges("value") => Range(ev.r) = SparseProduct(ev.a, ev.b) /\ Len(ev.r) = Cardinality(Range(ev.r))
TraceNext == TVast \/ TSession \/ TCtx \/ TCall \/ TDet \/ TBig
TraceSpec == TraceInit /\ [][TraceNext]_traceVars
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
