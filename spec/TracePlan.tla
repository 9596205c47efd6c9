----------------------------- MODULE TracePlan -----------------------------
(* Judges recorded planning calls: budgets and cover (C17), loop order (C16), *)
(* grid (C14), packed sizes (C03).                                            *)
EXTENDS CakePack, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
CONSTANT Judge
Judges(a) == a \in Judge
VARIABLES l, ctx
vars == <<l, ctx>>
Init == l = 1 /\ ctx = << >>
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TSession == Is("session") /\ ctx' = << >>
TCtx == Is("ctx") /\ ctx' = (Trace[l].c :> Trace[l]) @@ ctx

User(e) == e.mcu > 0 /\ e.kcu > 0 /\ e.ncu > 0

(* ---- one-dimensional plans (K-, M- and N-first) *)
Heights(e, x) == LET m2 == McL2(x.mr, x.nr, x.L2) IN {b \in {q*x.mr : q \in 1..(Max(m2, x.mr) \div x.mr)} : IsBlockHeight(b, e.M, e.p, x.mr, m2)}
BudgetOk(e, x) ==
    IF User(e) THEN e.mc = e.mcu /\ e.kc = e.kcu /\ e.nc = e.ncu
    ELSE LET m2 == McL2(x.mr, x.nr, x.L2)
             m3 == McL3(x.mr, x.ncores, x.L3)
         IN /\ e.mc > 0 /\ e.mc % x.mr = 0 /\ e.kc > 0 /\ e.nc > 0 /\ e.nc % x.nr = 0
            /\ IF e.sch \in {"KMN", "MKN"}
               THEN e.kc = e.mc /\ IsBlockHeight(e.mc, e.M, e.p, x.mr, m2) /\ IsBlockWidth(e.nc, e.mc, e.p, x.nr, m2, m3)
               ELSE \* N-first: the budget's height is the block width, and the height is scaled instead
                    \E b \in Heights(e, x) : /\ e.nc = Max(x.nr, b - (b % x.nr))
                                             /\ (e.mc = x.mr \/ e.mc*m2 <= m3*b) /\ e.kc = e.mc
CoverOk(e, x) ==
    LET rows == IF e.sch = "MKN" THEN e.mc ELSE e.p*e.mc
        deps == IF e.sch = "KMN" THEN e.kc ELSE e.p*e.kc
        b(t) == IF t THEN 1 ELSE 0
    IN /\ e.Mp = RoundUp(e.M, x.mr) /\ e.Np = RoundUp(e.N, x.nr)
       /\ e.Mb = Pieces(e.M, rows) /\ e.Kb = Pieces(e.K, deps) /\ e.Nb = Pieces(e.N, e.nc)
       /\ e.mpad = b(e.M % rows # 0) /\ e.kpad = b(e.K % deps # 0) /\ e.npad = b(e.N % e.nc # 0)
       /\ e.npad = 1 => e.nc1 = RoundUp(e.N % e.nc, x.nr)
       /\ e.sch = "KMN" => /\ e.kpad = 1 => e.kc1 = e.K % e.kc
                           /\ e.mpad = 1 => LET sh == Share(e.M, rows, e.mc, x.mr, e.Mb - 1, e.p)
                                            IN e.pl = sh[1] /\ e.mc1 = sh[2] /\ e.mc1l = sh[3]
       /\ e.sch # "KMN" => /\ e.mpad = 1 => e.mc1 = RoundUp(e.M % rows, x.mr)
                           /\ e.kpad = 1 => LET sh == ShareK(e.K, e.p, e.kc, e.Kb - 1)
                                            IN e.pl = sh[1] /\ e.kc1 = sh[2] /\ e.kc1l = sh[3]
       /\ e.pm*e.pn <= e.p

(* ---- two-dimensional plans *)
KcMax(x) == ((x.L1 \div 4) - x.mr*x.nr) \div (x.mr + x.nr)
FitsL1(k, x) == 4*(k*(x.mr + x.nr) + x.mr*x.nr) <= x.L1
FitsGridL2(m, x) == m*(2*m + x.nr) <= x.L2 \div 4
Budget2dOk(e, x) == /\ e.mc > 0 /\ e.mc % x.mr = 0 /\ e.nc > 0 /\ e.nc % x.nr = 0
                    /\ IF User(e) THEN e.kc = e.kcu
                       ELSE e.kc > 0 /\ FitsL1(e.kc, x) /\ ~FitsL1(e.kc + 1, x) /\ (e.mc = x.mr \/ FitsGridL2(e.mc, x))
\* D elements in runs of `per`, `cores` runs per block; the last block in even runs of whole tiles
Runs(D, cores, per, unit, nb, used, run, last) ==
    LET outer == cores*per IN
    nb = Pieces(D, outer) /\ (D % outer # 0 => LET sh == Share(D, outer, per, unit, nb - 1, cores) IN <<used, run, last>> = sh)
Cover2dOk(e, x) ==
    /\ e.pm >= 1 /\ e.pn >= 1 /\ e.pm*e.pn <= e.p
    /\ Runs(e.M, e.pm, e.mc, x.mr, e.Mb, e.pml, e.mc1, e.mc1l)
    /\ Runs(e.N, e.pn, e.nc, x.nr, e.Nb, e.pnl, e.nc1, e.nc1l)
    /\ e.Kb = Pieces(e.K, e.kc) /\ (e.K % e.kc # 0 => e.kc1 = e.K % e.kc)
    /\ e.Mp = RoundUp(e.M, x.mr) /\ e.Np = RoundUp(e.N, x.nr)
SmallOk(e, x) ==
    /\ e.mc > 0 /\ e.mc % x.mr = 0 /\ e.nc > 0 /\ e.nc % x.nr = 0 /\ e.kc > 0 /\ FitsL1(e.kc, x)
SmallCover(e, x) ==
    /\ e.pm >= 1 /\ e.pn >= 1 /\ e.pm*e.pn <= e.p
    /\ (e.pm - 1)*e.mc + e.mc1 = RoundUp(e.M, x.mr) /\ e.mc1 \in 1..e.mc /\ e.mc1 % x.mr = 0
    /\ (e.pn - 1)*e.nc + e.nc1 = RoundUp(e.N, x.nr) /\ e.nc1 \in 1..e.nc /\ e.nc1 % x.nr = 0
    /\ e.Kb = Pieces(e.K, e.kc) /\ (e.K % e.kc # 0 => e.kc1 = e.K % e.kc)
    /\ e.Mp = RoundUp(e.M, x.mr) /\ e.Np = RoundUp(e.N, x.nr)

OrderOk(e, x) ==
    IF e.asked # "NA" THEN e.sch = e.asked
    ELSE \E b \in (IF ~User(e) /\ e.sch # "NKM" THEN {e.mc} \cap Heights(e, x) ELSE Heights(e, x)) : e.sch \in AutoOrders(e.M, e.N, e.K, e.p*b)

TPlan == /\ Is("plan") /\ UNCHANGED ctx
         /\ LET e == Trace[l] x == ctx[e.c] IN
            /\ e.kind = "1d" => /\ Judges("budget") => BudgetOk(e, x)
                                /\ Judges("cover") => CoverOk(e, x)
                                /\ Judges("order") => OrderOk(e, x)
            /\ e.kind = "2d" => /\ Judges("budget") => Budget2dOk(e, x)
                                /\ Judges("cover") => Cover2dOk(e, x)
            /\ e.kind = "small" => /\ Judges("budget") => SmallOk(e, x)
                                   /\ Judges("cover") => SmallCover(e, x)
TSetSched == /\ Is("setsched") /\ UNCHANGED ctx
             /\ LET e == Trace[l] IN Judges("order") => e.got = (IF e.asked = "NA" THEN ShapeOrder(e.M, e.N, e.K) ELSE e.asked)
TSize == /\ Is("psize") /\ UNCHANGED ctx
         /\ LET e == Trace[l] x == ctx[e.c] IN
            Judges("size") => /\ e.arows = RoundUp(e.M, x.mr) /\ e.aexact
                              /\ e.bcols = RoundUp(e.N, x.nr) /\ e.bexact
                              /\ e.ccols = RoundUp(e.N, x.nr) /\ e.cexact
TGrid == /\ Is("grid") /\ UNCHANGED ctx
         /\ LET e == Trace[l] IN Judges("grid") => e.pn \in GridColsOf(e.M, e.N, e.p)
TTable == /\ Is("gridtable") /\ UNCHANGED ctx
          /\ LET e == Trace[l]  cols == Len(e.rows[1]) IN
             Judges("grid") => /\ cols >= e.cores
                               /\ \A r \in 1..Len(e.rows) : LET p == cols - r + 1 IN
                                     {q \in 1..cols : e.rows[r][q] = 1} = Divisors(p)
                               /\ \A p \in 2..e.cores : cols - p + 1 \in 1..Len(e.rows)
Next == TSession \/ TCtx \/ TPlan \/ TSetSched \/ TSize \/ TGrid \/ TTable
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
