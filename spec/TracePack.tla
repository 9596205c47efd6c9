----------------------------- MODULE TracePack -----------------------------
(* Judges recorded packing and unpacking calls against the packed layouts.   *)
(* The source matrix holds 1, 2, 3, ... so the content of the packed buffer   *)
(* names the element at every place (0 zero, -1 never written, -2 anything    *)
(* else).                                                                     *)
EXTENDS CakePack, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, ctx
vars == <<l, ctx>>
Init == l = 1 /\ ctx = << >>
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TSession == Is("session") /\ ctx' = << >>
TCtx == Is("ctx") /\ ctx' = (Trace[l].c :> Trace[l]) @@ ctx

Geom(e, x) == [sch |-> e.sch, M |-> e.M, N |-> e.N, K |-> e.K, p |-> e.p, mr |-> x.mr, nr |-> x.nr, mc |-> e.mc, kc |-> e.kc, nc |-> e.nc]
NonZero(s) == Cardinality({q \in 1..Len(s) : s[q] # 0})
\* every element at its place, zeros everywhere else
Holds(data, size, rows, cols, Addr(_, _)) ==
    /\ Len(data) = size
    /\ \A e \in 0..(rows*cols - 1) : data[Addr(e \div cols, e % cols) + 1] = e + 1
    /\ NonZero(data) = rows*cols
Identity(s, n) == Len(s) = n /\ \A q \in 1..n : s[q] = q

TPack == /\ Is("pack") /\ UNCHANGED ctx
         /\ LET e == Trace[l]  g == Geom(e, ctx[e.c]) IN
            /\ e.frame
            /\ CASE e.op = "A" -> Holds(e.data, SizeA(g), g.M, g.K, LAMBDA i, k : AddrA(g, i, k))
                 [] e.op = "B" -> Holds(e.data, SizeB(g), g.K, g.N, LAMBDA k, j : AddrB(g, k, j))
                 [] e.op = "C" -> Holds(e.data, SizeC(g), g.M, g.N, LAMBDA i, j : AddrC(g, i, j)) /\ Identity(e.back, g.M*g.N)

\* an h x w block at (r0, c0) of an R x W matrix: what belongs at block position (r, c)
Elem(e, r, c) == IF e.r0 + r < e.R /\ e.c0 + c < e.W THEN 1 + (e.r0 + r)*e.W + e.c0 + c ELSE 0
BlockHolds(e, Addr(_, _)) ==
    /\ Len(e.data) = e.h*e.w
    /\ \A q \in 0..(e.h*e.w - 1) : e.data[Addr(q \div e.w, q % e.w) + 1] = Elem(e, q \div e.w, q % e.w)
\* unpacking writes exactly the block's elements
BackHolds(e) == \A q \in 0..(e.R*e.W - 1) : LET r == q \div e.W  c == q % e.W IN
                   e.back[q + 1] = (IF r >= e.r0 /\ r < e.r0 + e.h /\ c >= e.c0 /\ c < e.c0 + e.w THEN q + 1 ELSE -1)
TPob == /\ Is("pob") /\ UNCHANGED ctx
        /\ LET e == Trace[l]
               rowstrips(r, c) == InStrip(e.tr, e.w, r, c)       \* A: lanes are rows
               colstrips(r, c) == InStrip(e.tc, e.h, c, r)       \* B: lanes are columns
               tiles(r, c) == (c \div e.tc)*e.tc*e.h + (r \div e.tr)*e.tr*e.tc + (r % e.tr)*e.tc + (c % e.tc)
           IN /\ e.frame
              /\ CASE e.fn \in {"A", "Amb", "Amr", "Ablis"} -> BlockHolds(e, rowstrips)
                   [] e.fn \in {"B", "Bpar", "Bnr", "Bblis"} -> BlockHolds(e, colstrips)
                   [] e.fn \in {"C", "Cmb"} -> BlockHolds(e, tiles) /\ BackHolds(e)
Next == TSession \/ TCtx \/ TPack \/ TPob
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
