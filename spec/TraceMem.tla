------------------------------ MODULE TraceMem ------------------------------
(* Judges recorded memory behaviour: "bounds" in bounds, operands kept, words  *)
(* written before they are read (C05); "race" no conflicting accesses of two    *)
(* threads in one step (C06).                                                   *)
EXTENDS CakeMem, Json
Trace == ndJsonDeserialize("trace.ndjson")
CONSTANT Judge
Judges(a) == a \in Judge
Holds(b) == b = TRUE            \* a judgement is a value, not a choice of next states
VARIABLES l
vars == <<objs, l>>
Init == l = 1 /\ objs = << >>
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TSession == (Is("session") \/ Is("begin")) /\ objs' = << >>
TObj == Is("obj") /\ Give(Trace[l].o, Trace[l].kind, Trace[l].size)
TAlloc == Is("alloc") /\ Alloc(Trace[l].o, Trace[l].size, Trace[l].zero)
TFree == Is("free") /\ Free(Trace[l].o)
TStep == /\ Is("step")
         /\ LET acc == Trace[l].acc IN
            /\ Judges("bounds") => Holds(InBounds(acc) /\ OperandsKept(acc) /\ InitBeforeRead(acc))
            /\ Judges("race") => Holds(NoRace(acc))
            /\ IF Judges("bounds") THEN Step(acc) ELSE UNCHANGED objs
TEnd == Is("end") /\ UNCHANGED objs
Next == TSession \/ TObj \/ TAlloc \/ TFree \/ TStep \/ TEnd
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
