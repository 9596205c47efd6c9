------------------------------ MODULE CakePack ------------------------------
(* The packed layouts: where each element of A, B and C lives in the packed  *)
(* buffers, for the three loop orders.  g = [sch, M, N, K, p, mr, nr, mc,    *)
(* kc, nc] is the geometry of a call.                                        *)
EXTENDS CakePlan

PadM(g) == RoundUp(g.M, g.mr)
PadN(g) == RoundUp(g.N, g.nr)
SizeA(g) == PadM(g)*g.K
SizeB(g) == PadN(g)*g.K
SizeC(g) == PadM(g)*PadN(g)

\* a strip of `w` lanes and `len` depths, element (lane, depth)
InStrip(w, len, lane, depth) == (lane \div w)*w*len + depth*w + (lane % w)

\* rows: padded height of row block m (block height h), padded width of column block n
HeightM(g, m, h) == Min(h, PadM(g) - m*h)
WidthN(g, n)     == Min(g.nc, PadN(g) - n*g.nc)

AddrA(g, i, k) ==
    CASE g.sch = "KMN" ->
            LET h == g.p*g.mc   m == i \div h
                sh == Share(g.M, h, g.mc, g.mr, m, g.p)
                kb == k \div g.kc   kct == PieceSize(g.K, g.kc, kb)
                r == i % h   core == r \div sh[2]
            IN m*h*g.K + kb*g.kc*HeightM(g, m, h) + core*sh[2]*kct + InStrip(g.mr, kct, r % sh[2], k % g.kc)
      [] g.sch = "MKN" ->
            LET pk == g.p*g.kc   kb == k \div pk   kcb == PieceSize(g.K, pk, kb)
                sh == ShareK(g.K, g.p, g.kc, kb)
                m == i \div g.mc   mct == HeightM(g, m, g.mc)
                q == k % pk   core == q \div sh[2]
            IN kb*pk*PadM(g) + m*g.mc*kcb + core*sh[2]*mct + InStrip(g.mr, RunLen(sh, core), i % g.mc, q % sh[2])
      [] g.sch = "NKM" ->
            LET pk == g.p*g.kc   kb == k \div pk
                sh == ShareK(g.K, g.p, g.kc, kb)
                h == g.p*g.mc   m == i \div h   mct == HeightM(g, m, h)
                q == k % pk   core == q \div sh[2]
            IN m*h*g.K + kb*pk*mct + core*sh[2]*mct + InStrip(g.mr, RunLen(sh, core), i % h, q % sh[2])

AddrB(g, k, j) ==
    LET n == j \div g.nc   nct == WidthN(g, n) IN
    CASE g.sch = "KMN" ->
            LET kb == k \div g.kc   kct == PieceSize(g.K, g.kc, kb)
            IN n*g.nc*g.K + kb*g.kc*nct + InStrip(g.nr, kct, j % g.nc, k % g.kc)
      [] OTHER ->
            LET pk == g.p*g.kc   kb == k \div pk   kcb == PieceSize(g.K, pk, kb)
                sh == ShareK(g.K, g.p, g.kc, kb)   q == k % pk   core == q \div sh[2]
                blk == IF g.sch = "MKN" THEN n*g.nc*g.K + kb*pk*nct          \* column blocks first
                       ELSE kb*pk*PadN(g) + n*g.nc*kcb                       \* depth blocks first
            IN blk + core*sh[2]*nct + InStrip(g.nr, RunLen(sh, core), j % g.nc, q % sh[2])

\* C tiles are row-major mr x nr; tiles of a (core) block of height ht run down the rows first
InTiles(g, ht, r, c) == (c \div g.nr)*g.nr*ht + (r \div g.mr)*g.mr*g.nr + (r % g.mr)*g.nr + (c % g.nr)
AddrC(g, i, j) ==
    LET n == j \div g.nc   nct == WidthN(g, n) IN
    CASE g.sch = "KMN" ->
            LET h == g.p*g.mc   m == i \div h
                sh == Share(g.M, h, g.mc, g.mr, m, g.p)
                r == i % h   core == r \div sh[2]
            IN n*g.nc*PadM(g) + m*h*nct + core*sh[2]*nct + InTiles(g, RunLen(sh, core), r % sh[2], j % g.nc)
      [] g.sch = "MKN" ->
            LET m == i \div g.mc
            IN n*g.nc*PadM(g) + m*g.mc*nct + InTiles(g, HeightM(g, m, g.mc), i % g.mc, j % g.nc)
      [] g.sch = "NKM" ->
            LET h == g.p*g.mc   m == i \div h
            IN m*h*PadN(g) + n*g.nc*HeightM(g, m, h) + InTiles(g, HeightM(g, m, h), i % h, j % g.nc)

(* the packed buffer of a matrix whose element (i, j) is 1 + i*cols + j *)
Spots(rows, cols, Addr(_, _)) == [e \in 0..(rows*cols - 1) |-> Addr(e \div cols, e % cols)]
=============================================================================
