------------------------------ MODULE CakeApi ------------------------------
(* The public interface of the library as a state machine: what a caller may *)
(* rely on across any history of calls.                                      *)
(*   cval[b]  content of the caller's result buffer b, as twice its          *)
(*            projection (Gen.tla) so that half-integer factors stay exact;  *)
(*            Nan if the buffer holds not-a-number values                    *)
(*   ctx      the contexts the caller owns, as the caller left them          *)
(*   lib      memory blocks and file descriptors the library holds           *)
(* A call reads its operands, its own arguments and (only if beta # 0) the   *)
(* old content of its result buffer -- nothing else: no earlier call, no     *)
(* other buffer, no block sizes, thread count or schedule appear in the      *)
(* right-hand side of cval'.                                                 *)
EXTENDS Integers, FiniteSets, TLC

CONSTANT Prime                  \* the modulus of the projection (odd)
Nan == -1
Half == (Prime + 1) \div 2      \* inverse of 2

VARIABLES cval, ctx, lib
apiVars == <<cval, ctx, lib>>

Mod(x, y) == ((x % Prime) * (y % Prime)) % Prime

\* 2*(al*X + be*Y), from X, 2Y and the doubled factors al2 = 2*al, be2 = 2*be
Axpby2(al2, x, be2, y2) ==
    IF be2 = 0 THEN Mod(al2, x)
    ELSE IF y2 = Nan THEN Nan
    ELSE (Mod(al2, x) + Mod(be2, Mod(y2, Half))) % Prime

ApiInit == /\ cval = << >>
           /\ ctx  = << >>
           /\ lib  = [blocks |-> 0, fds |-> 0]

\* the caller obtains (or describes) a machine context
OpenCtx(c, g) == /\ ctx' = (c :> g) @@ ctx
                 /\ UNCHANGED <<cval, lib>>

\* the caller (re)fills a result buffer
FillC(b, v2) == /\ cval' = (b :> v2) @@ cval
                /\ UNCHANGED <<ctx, lib>>

\* One matrix multiplication into buffer b; prod is the projection of A*B.
\* The library returns everything it acquired, and leaves the caller's
\* contexts and other buffers as they were.
Gemm(b, prod, al2, be2) ==
    /\ b \in DOMAIN cval
    /\ cval' = [cval EXCEPT ![b] = Axpby2(al2, prod, be2, cval[b])]
    /\ UNCHANGED <<ctx, lib>>
=============================================================================
