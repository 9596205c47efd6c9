------------------------------ MODULE CakeMem ------------------------------
(* Memory as a call sees it: objects (operands, result, scratch buffers) of so *)
(* many words; a call is a sequence of allocations, releases and synchronised   *)
(* steps.  In one step every thread reads and writes words of objects; what it  *)
(* read before writing it itself in that step is its exposed reads.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE objs          \* object -> [kind, size, live, init, runs]: the words that hold a value, one by one (init) or as long runs
memVars == <<objs>>

\* an access record: <<thread, object, read, written, exposed>>; each a flat list of interval bounds
Long(lo, hi) == hi - lo >= 4096
Pieces(fl) == { <<fl[2*i - 1], fl[2*i]>> : i \in 1..(Len(fl) \div 2) }
Words(ps) == UNION { q[1]..q[2] : q \in { x \in ps : ~Long(x[1], x[2]) } }
Runs(ps) == { q \in ps : Long(q[1], q[2]) }
\* does every word of lo..hi of an object hold a value
Holding(ob, lo, hi) == \/ \E r \in ob.runs : r[1] <= lo /\ hi <= r[2]
                       \/ \A w \in lo..hi : w \in ob.init \/ \E r \in ob.runs : r[1] <= w /\ w <= r[2]
Inside(fl, n) == \A i \in 1..Len(fl) : fl[i] \in 0..(n - 1)

Operand == {"A", "B", "PA", "PB"}          \* never written
Value == Operand \cup {"C"}                \* hold values from the start
Scratch == {"HEAP", "DST"}                 \* hold values only once written

InBounds(acc) == \A i \in 1..Len(acc) : LET a == acc[i] IN a[2] >= 0 =>
    /\ a[2] \in DOMAIN objs /\ objs[a[2]].live
    /\ Inside(a[3], objs[a[2]].size) /\ Inside(a[4], objs[a[2]].size)
OperandsKept(acc) == \A i \in 1..Len(acc) : LET a == acc[i] IN
    a[2] \in DOMAIN objs /\ objs[a[2]].kind \in Operand => a[4] = << >>
InitBeforeRead(acc) == \A i \in 1..Len(acc) : LET a == acc[i] IN
    a[2] \in DOMAIN objs /\ objs[a[2]].kind \in Scratch =>
        \A j \in 1..(Len(a[5]) \div 2) : Holding(objs[a[2]], a[5][2*j - 1], a[5][2*j])
\* do two interval lists (in increasing order) have no word in common
Apart(f, h) == \/ f = << >> \/ h = << >> \/ f[Len(f)] < h[1] \/ h[Len(h)] < f[1]
               \/ \A i \in 1..(Len(f) \div 2) : \A j \in 1..(Len(h) \div 2) : f[2*i] < h[2*j - 1] \/ h[2*j] < f[2*i - 1]
\* negative objects are memory shared by the threads that is no object of the call (the caller's frame, globals)
NoRace(acc) == \A i \in 1..Len(acc) : acc[i][4] = << >> \/
    \A j \in 1..Len(acc) : acc[j][2] # acc[i][2] \/ acc[j][1] = acc[i][1] \/
        (Apart(acc[i][4], acc[j][3]) /\ Apart(acc[i][4], acc[j][4]))

Give(o, kind, size) == objs' = (o :> [kind |-> kind, size |-> size, live |-> TRUE, init |-> {}, runs |-> {}]) @@ objs
Alloc(o, size, zero) == /\ o \notin DOMAIN objs
                        /\ objs' = (o :> [kind |-> "HEAP", size |-> size, live |-> TRUE, init |-> {},
                                           runs |-> IF zero THEN {<<0, size - 1>>} ELSE {}]) @@ objs
Free(o) == /\ o \in DOMAIN objs /\ objs[o].live /\ objs[o].kind = "HEAP"
           /\ objs' = [objs EXCEPT ![o].live = FALSE, ![o].init = {}, ![o].runs = {}]
\* what a step leaves behind
Written(acc, o) == UNION { Pieces(acc[i][4]) : i \in { j \in 1..Len(acc) : acc[j][2] = o } }
Step(acc) == objs' = [o \in DOMAIN objs |-> IF objs[o].kind \notin Scratch THEN objs[o]
                        ELSE LET ps == Written(acc, o) IN [objs[o] EXCEPT !.init = @ \cup Words(ps), !.runs = @ \cup Runs(ps)]]
=============================================================================
