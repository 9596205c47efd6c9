------------------------------- MODULE GenApi -------------------------------
(* Generates API histories for model-based testing: CakeApi's state machine  *)
(* with the arguments a caller may choose made explicit.  TLC -simulate walks *)
(* it; every completed walk prints the history, which the harness replays     *)
(* into the library and TraceApi judges.                                      *)
EXTENDS CakeApi, Sequences, Json
CONSTANTS Depth, Fns, Scheds, Dims, Threads, Al2s, Be2s, NBufs, NCtxs
VARIABLE hist
gVars == <<apiVars, hist>>
\* each buffer has one shape for its whole life; shape[b] = <<M, N, filled with
\* not-a-number, may hold halves>>; a buffer of halves is not halved again, so
\* that every value stays a multiple of one half
VARIABLE shape
GInit == /\ ApiInit /\ hist = << >> /\ shape = << >>
\* one random element, bound once
One(S) == {RandomElement(S)}
Log(r) == hist' = Append(hist, r)
GOpen == /\ Cardinality(DOMAIN ctx) < NCtxs
         /\ \E mach \in One(0..6), tile \in One(0..3) : LET c == Cardinality(DOMAIN ctx) IN
            /\ OpenCtx(c, "m") /\ Log([a |-> "ctx", c |-> c, mach |-> mach, tile |-> tile]) /\ UNCHANGED shape
GFill == /\ Cardinality(DOMAIN cval) < NBufs
         /\ \E m \in One(Dims), n \in One(Dims), v \in One({0, 1, 2, Nan}) : LET b == Cardinality(DOMAIN cval) + 1 IN
            /\ FillC(b, v)
            /\ shape' = (b :> <<m, n, v = Nan, FALSE>>) @@ shape
            /\ hist' = hist
GGemm == /\ DOMAIN cval # {} /\ DOMAIN ctx # {}
         /\ \E b \in One(DOMAIN cval), fn \in One(Fns), k \in One(Dims), c \in One(DOMAIN ctx \cup {-1}), p \in One(Threads), sch \in One(Scheds),
               al2 \in One(Al2s), be2 \in One(Be2s), sa \in One(1..9), sb \in One(1..9), user \in One(0..5), pk \in One(0..5), gd \in One(0..1) :
            /\ shape[b][4] => be2 # 1
            /\ LET r == [a |-> "call", b |-> b, M |-> shape[b][1], N |-> shape[b][2], nan |-> shape[b][3], K |-> k, c |-> c, fn |-> fn, p |-> p,
                      sch |-> sch, al2 |-> al2, be2 |-> be2, sa |-> sa, sb |-> sb, sc |-> b, user |-> user, pk |-> pk, gd |-> gd]
               IN Gemm(b, sa, al2, be2) /\ Log(r)
            /\ shape' = [shape EXCEPT ![b][4] = al2 % 2 = 1 \/ be2 = 1 \/ (@ /\ be2 = 2)]
GNext == /\ Len(hist) < Depth
         /\ GOpen \/ GFill \/ GGemm
\* keep going to Depth; print each completed history once
GDone == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
GSpec == GInit /\ [][GNext]_<<gVars, shape>>
MAl2s == {2, -2, 1, 4}
MBe2s == {0, 2, 1, -4}
MDims == {1, 2, 3, 5, 6, 7, 8, 11, 12, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 80, 97}
=============================================================================
