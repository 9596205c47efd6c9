----------------------------- MODULE TraceSched -----------------------------
(* Judges recorded schedules: who was handed which register-tile updates, in   *)
(* which parallel step, and which chain of updates made each element of C.     *)
(*   "cover"  every multiply-add exactly once, at its own place (C09)          *)
(*   "even"   no core gets more than its rounded-up share of a step (C09)      *)
(*   "walk"   blocks are visited in the order of CakeTraverse (C15)            *)
(*   "reuse"  shared surfaces are not read again (C15)                         *)
(*   "order"  the loop order followed is the one asked for (C16)               *)
EXTENDS CakePlan, CakeTraverse, Json, TLC, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
CONSTANT Judge
Judges(a) == a \in Judge
Holds(b) == b = TRUE            \* a judgement is a value, not a choice of next states
\* call: the begin event of the running call; pos: blocks visited so far; last: the last step's block and
\* the steps in which its surfaces of A and B had been read
\* seen: kernels recorded in the call so far and the number of its last step
VARIABLES l, ctx, call, pos, last, seen
vars == <<l, ctx, call, pos, last, seen>>
Init == l = 1 /\ ctx = << >> /\ call = << >> /\ pos = 0 /\ last = << >> /\ seen = <<0, 0>>
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* a recording is whole: calls do not end before their last event
TSession == Is("session") /\ call = << >> /\ ctx' = << >> /\ call' = << >> /\ pos' = 0 /\ last' = << >> /\ seen' = <<0, 0>>
TCtx == Is("ctx") /\ ctx' = (Trace[l].c :> Trace[l]) @@ ctx /\ UNCHANGED <<call, pos, last, seen>>

(* the blocks of a call *)
Grid(e) == e.fn \in {"2d", "2dsmall"}
Ord(e) == IF e.sch \in {"MKN", "NKM"} THEN e.sch ELSE "KMN"
RowsOf(e) == IF e.fn = "2dsmall" THEN e.M ELSE IF e.fn = "2d" THEN e.pm*e.mc ELSE IF Ord(e) = "MKN" THEN e.mc ELSE e.p*e.mc
DepsOf(e) == IF Ord(e) \in {"MKN", "NKM"} THEN e.p*e.kc ELSE e.kc
ColsOf(e) == IF e.fn = "2dsmall" THEN e.N ELSE IF e.fn = "2d" THEN e.pn*e.nc ELSE e.nc
NB(e) == [m |-> Pieces(e.M, RowsOf(e)), k |-> Pieces(e.K, DepsOf(e)), n |-> Pieces(e.N, ColsOf(e))]
Rad(e) == Radix(Ord(e), NB(e))

(* kernels: <<thread, row, rows, column, columns, depth, depths, read A, read B>> *)
OneBlock(e, q) == /\ q[2] \div RowsOf(e) = (q[2] + q[3] - 1) \div RowsOf(e)
                  /\ q[4] \div ColsOf(e) = (q[4] + q[5] - 1) \div ColsOf(e)
                  /\ q[6] \div DepsOf(e) = (q[6] + q[7] - 1) \div DepsOf(e)
BlockOf(e, q) == [m |-> q[2] \div RowsOf(e), k |-> q[6] \div DepsOf(e), n |-> q[4] \div ColsOf(e)]
PlaceOf(e, q) == Place(Coord(Ord(e), BlockOf(e, q)), Rad(e))
ByThread(ks, t) == SelectSeq(ks, LAMBDA q : q[1] = t)

\* Which thread carries out which piece of a step is OpenMP's affair (C09 has its say on the shares).  A thread
\* that carries out the pieces of two cores of a K-first step goes through the step's blocks twice: at most p runs
\* in all, each from the first block of the step to its last.  Blocks of one M- or N-first step are dealt out to the
\* threads; each takes its own in order.
WalkOk(e, ks) ==
    LET I == 1..Len(ks)
        ps == { PlaceOf(e, ks[i]) : i \in I }
        end == pos + Cardinality(ps) - 1
        threads == { ks[i][1] : i \in I }
        seq(t) == LET m == ByThread(ks, t) IN [i \in 1..Len(m) |-> PlaceOf(e, m[i])]
        again(s) == { i \in 2..Len(s) : s[i-1] # pos /\ s[i-1] = end /\ s[i] = pos }
        kfirst == Grid(e) \/ Ord(e) = "KMN"
        step(s) == \A i \in 2..Len(s) : IF kfirst THEN s[i] - s[i-1] \in {0, 1} \/ i \in again(s) ELSE s[i] >= s[i-1]
    IN /\ \A i \in I : OneBlock(e, ks[i])
       /\ ps = pos..end
       /\ \A t \in threads : step(seq(t))
       /\ kfirst => /\ \A t \in threads : seq(t)[1] = pos /\ seq(t)[Len(seq(t))] = end
                    /\ FoldLeft(LAMBDA a, t : a + 1 + Cardinality(again(seq(t))), 0, SetToSeq(threads)) <= e.p
\* on-line schedules: a block that shares a surface with the block before it does not read it again
ReuseOk(e, ks) ==
    \A i \in 1..Len(ks) : LET b == BlockOf(e, ks[i]) IN
       last # << >> => /\ SameA(b, last.b) => ks[i][8] \in last.a
                       /\ SameB(b, last.b) => ks[i][9] \in last.bb
EvenOk(e, ks, x) ==
    LET I == 1..Len(ks)
        given == { <<ks[i][1], PlaceOf(e, ks[i])>> : i \in I }        \* thread, block
        rowsOf(g) == Cardinality({ ks[i][2] : i \in { j \in I : <<ks[j][1], PlaceOf(e, ks[j])>> = g } })
        colsOf(g) == Cardinality({ ks[i][4] : i \in { j \in I : <<ks[j][1], PlaceOf(e, ks[j])>> = g } })
        rows(g) == CeilDiv(PieceSize(e.M, RowsOf(e), Uncoord(Ord(e), At(g[2], Rad(e))).m), x.mr)
        cols(g) == CeilDiv(PieceSize(e.N, ColsOf(e), Uncoord(Ord(e), At(g[2], Rad(e))).n), x.nr)
    IN IF Grid(e) THEN \E c \in GridCols(e.M, e.N, e.p) : \A g \in given : rowsOf(g) <= CeilDiv(rows(g), e.p \div c) /\ colsOf(g) <= CeilDiv(cols(g), c)
       ELSE IF Ord(e) = "KMN" THEN \A g \in given : rowsOf(g) <= CeilDiv(rows(g), e.p)
       ELSE LET blocks == { g[2] : g \in given } IN
            \A t \in { g[1] : g \in given } : Cardinality({ g \in given : g[1] = t }) <= CeilDiv(Cardinality(blocks), e.p)

TBegin == /\ Is("begin") /\ call = << >> /\ UNCHANGED ctx
          /\ call' = Trace[l] /\ pos' = 0 /\ last' = << >> /\ seen' = <<0, 0>>
          /\ LET e == Trace[l] IN
             /\ Judges("order") => (IF e.fn # "gemm" THEN e.sch = "KMN"
                                    ELSE IF e.asked # "NA" THEN e.sch = e.asked
                                    ELSE e.sch \in {"KMN", "MKN", "NKM"})
TReg == /\ Is("reg") /\ call # << >> /\ UNCHANGED <<ctx, call>>
        /\ Trace[l].r > seen[2]
        /\ seen' = <<seen[1] + Len(Trace[l].ks), Trace[l].r>>
        /\ LET ev == Trace[l]  e == call  ks == ev.ks  x == ctx[e.c] IN
           /\ Judges("cover") => /\ ~ev.bad
                                 /\ \A i \in 1..Len(ks) : ks[i][1] \in 0..(e.p - 1)
           /\ Judges("walk") \/ Judges("order") => Holds(WalkOk(e, ks))
           /\ Judges("reuse") /\ e.fn \in {"online", "2d", "2dsmall"} /\ ev.gens => Holds(ReuseOk(e, ks))
           /\ Judges("even") => Holds(EvenOk(e, ks, x))
           /\ pos' = pos + Cardinality({ PlaceOf(e, ks[i]) : i \in 1..Len(ks) })
           /\ last' = [b |-> BlockOf(e, ks[Len(ks)]), a |-> { ks[i][8] : i \in 1..Len(ks) }, bb |-> { ks[i][9] : i \in 1..Len(ks) }]

\* one tile of C: <<row, column, elements, chain>>; a link of the chain: <<row, rows, column, columns, depth, depths>>
TileOk(e, t) ==
    LET ch == t[4]  r == ch[1] IN
    /\ Len(ch) >= 1
    /\ r[1] = t[1] /\ r[3] = t[2] /\ r[2]*r[4] = t[3]
    /\ \A i \in 1..Len(ch) : ch[i][1] = r[1] /\ ch[i][2] = r[2] /\ ch[i][3] = r[3] /\ ch[i][4] = r[4]
    /\ FoldLeft(LAMBDA a, q : a + q[6], 0, ch) = e.K
    /\ UNION { ch[i][5]..(ch[i][5] + ch[i][6] - 1) : i \in 1..Len(ch) } = 0..(e.K - 1)
CoverOk(e, ev) ==
    /\ ev.stray = 0 /\ ev.used = ev.kernels
    /\ \A i \in 1..Len(ev.tiles) : TileOk(e, ev.tiles[i])
    /\ FoldLeft(LAMBDA a, t : a + t[3], 0, ev.tiles) = e.M*e.N      \* tiles hold disjoint sets of elements
TDone == /\ Is("done") /\ call # << >> /\ Trace[l].kernels = seen[1] /\ UNCHANGED <<ctx, seen>>
         /\ LET ev == Trace[l]  e == call IN
            /\ Judges("cover") => Holds(CoverOk(e, ev))
            /\ Judges("walk") \/ Judges("order") => pos = Total(Rad(e))
         /\ call' = << >> /\ pos' = 0 /\ last' = << >>
Next == TSession \/ TCtx \/ TBegin \/ TReg \/ TDone
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
