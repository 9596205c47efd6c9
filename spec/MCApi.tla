------------------------------- MODULE MCApi -------------------------------
(* Exhaustive instance of CakeApi over a small prime: every history of up to *)
(* MaxLen calls on two buffers; the history variable lets the invariant say  *)
(* that a buffer's content is determined by the calls on that buffer since   *)
(* its last overwriting call.                                                *)
EXTENDS CakeApi, Sequences
CONSTANTS MaxLen, Prods, Al2s, Be2s
VARIABLE hist
mcVars == <<apiVars, hist>>
Bufs == {1, 2}
MCAl2s == {2, -1}
MCInit == /\ ctx = (1 :> "m1") /\ lib = [blocks |-> 0, fds |-> 0]
          /\ cval \in [Bufs -> {0, 3, Nan}]
          /\ hist = <<[b |-> 0, init |-> cval]>>
MCNext == /\ Len(hist) <= MaxLen
          /\ \E b \in Bufs, x \in Prods, a \in Al2s, e \in Be2s :
               /\ Gemm(b, x, a, e)
               /\ hist' = Append(hist, [b |-> b, x |-> x, a |-> a, e |-> e])
MCSpec == MCInit /\ [][MCNext]_mcVars

RECURSIVE Replay(_, _)
Replay(b, h) == IF Len(h) = 1 THEN h[1].init[b]
    ELSE LET t == h[Len(h)] r == SubSeq(h, 1, Len(h)-1)
         IN IF t.b # b THEN Replay(b, r)
            ELSE IF t.e = 0 THEN Mod(t.a, t.x)
            ELSE LET o == Replay(b, r) IN
                 IF o = Nan THEN Nan ELSE (Mod(t.a, t.x) + Mod(t.e, Mod(o, Half))) % Prime
OnlyOwnHistory == \A b \in Bufs : cval[b] = Replay(b, hist)
\* an overwriting call makes the result independent of everything before it
OverwriteForgets == Len(hist) > 1 /\ hist[Len(hist)].e = 0
                      => cval[hist[Len(hist)].b] = Mod(hist[Len(hist)].a, hist[Len(hist)].x)
NothingHeld == lib = [blocks |-> 0, fds |-> 0]
FrameOther == [][\A b \in Bufs : (hist' # hist /\ hist'[Len(hist')].b # b) => cval'[b] = cval[b]]_mcVars
=============================================================================
