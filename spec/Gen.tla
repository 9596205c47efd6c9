-------------------------------- MODULE Gen --------------------------------
(* The operand values the drivers use, and the projection of a matrix to    *)
(* one number modulo a prime.  harness/hcommon.h computes the same values.  *)
(*   A[i][k] = a1(i)b1(k) + a2(i)b2(k),  C0[i][j] = c(i)d(j)                *)
(*   Fp(X)   = SUM_i SUM_j u(i) v(j) X[i][j]  (mod P)                       *)
(* Fp is linear, so Fp(al*AB + be*C) = al*Fp(AB) + be*Fp(C); and because A  *)
(* and B have rank two, Fp(AB) needs only dot products along K (FpOfProduct;*)
(* GenSound.tla checks both facts against the textbook definition).         *)
EXTENDS Integers, Functions

Q == 4099
P == 32749

Val(s, i) == LET x == (i*1031 + s*97 + 13) % Q
                 v == (((x*x + 7*x) % Q) % 5) - 2
             IN  IF v = 0 THEN 3 ELSE v

AVal(s, i, k) == Val(4*s, i)*Val(4*s+1, k) + Val(4*s+2, i)*Val(4*s+3, k)
CVal(s, i, j) == Val(4*s, i)*Val(4*s+1, j)

U(i) == ((((i*i) % P) * 17) + (i*1237) + 101) % P
V(j) == ((((j*j) % P) * 29) + (j*2003) + 57) % P

(* textbook definitions: used by the soundness module and small instances *)
SumTo(n, f) == FoldFunction(+, 0, f)                       \* f : 0..n-1 -> Int
ProdEntry(K, sa, sb, i, j) == SumTo(K, [k \in 0..K-1 |-> AVal(sa, i, k)*AVal(sb, k, j)])

(* fast forms *)
Dot(n, s, t)  == FoldFunction(+, 0, [k \in 0..n-1 |-> Val(s, k)*Val(t, k)])
UDot(n, s)    == FoldFunction(LAMBDA x, y : (x + y) % P, 0, [i \in 0..n-1 |-> (U(i)*(Val(s, i) + P)) % P])
VDot(n, s)    == FoldFunction(LAMBDA x, y : (x + y) % P, 0, [j \in 0..n-1 |-> (V(j)*(Val(s, j) + P)) % P])
MulP(x, y)    == ((x % P) * (y % P)) % P

FpOfProduct(M, N, K, sa, sb) ==
    LET u1 == UDot(M, 4*sa)    u2 == UDot(M, 4*sa+2)
        v1 == VDot(N, 4*sb+1)  v2 == VDot(N, 4*sb+3)
        d11 == Dot(K, 4*sa+1, 4*sb)    d12 == Dot(K, 4*sa+1, 4*sb+2)
        d21 == Dot(K, 4*sa+3, 4*sb)    d22 == Dot(K, 4*sa+3, 4*sb+2)
    IN  (MulP(MulP(u1, v1), d11) + MulP(MulP(u1, v2), d12)
         + MulP(MulP(u2, v1), d21) + MulP(MulP(u2, v2), d22)) % P
FpOfC(M, N, s) == MulP(UDot(M, 4*s), VDot(N, 4*s+1))

(* Fp of an explicit matrix X : (0..M-1) \X (0..N-1) -> Int *)
FpOf(M, N, X(_,_)) ==
    FoldFunction(LAMBDA a, b : (a + b) % P, 0,
        [ij \in (0..M-1) \X (0..N-1) |-> MulP(MulP(U(ij[1]), V(ij[2])), X(ij[1], ij[2]))])
=============================================================================
