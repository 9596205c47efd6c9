----------------------------- MODULE MCChecker -----------------------------
(* What a result checker must decide: matrices over a small value domain with *)
(* not-a-number and the infinities; acceptance element by element equals      *)
(* acceptance of the whole, and nothing but the elements matters.             *)
EXTENDS Integers, FiniteSets
CONSTANTS Eps, MaxN
NaN == 1000
Inf == 500
Vals == {-Inf, -12, -8, 0, 8, 12, Inf, NaN}
VARIABLES n, got, want
Near(a, b) == /\ a # NaN /\ b # NaN
              /\ (a = b \/ (a # Inf /\ b # Inf /\ a # -Inf /\ b # -Inf /\ a - b <= Eps /\ b - a <= Eps))
Accept == \A i \in 1..n : Near(got[i], want[i])
\* the checker as the library does it: count the elements that are neither equal nor close
Equal(a, b) == a # NaN /\ b # NaN /\ a = b
Diff(a, b) == IF a = NaN \/ b = NaN \/ (a = b /\ a \in {Inf, -Inf}) THEN NaN ELSE IF a \in {Inf, -Inf} \/ b \in {Inf, -Inf} THEN Inf ELSE IF a >= b THEN a - b ELSE b - a
Close(a, b) == Diff(a, b) # NaN /\ Diff(a, b) <= Eps
Wrong == Cardinality({i \in 1..n : ~Equal(got[i], want[i]) /\ ~Close(got[i], want[i])})
Init == n \in 1..MaxN /\ got \in [1..n -> Vals] /\ want \in [1..n -> Vals]
Next == FALSE /\ UNCHANGED <<n, got, want>>
CountsRight == (Wrong = 0) = Accept
=============================================================================
