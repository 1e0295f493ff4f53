----------------------------- MODULE FixTest -----------------------------
(* The Java implementation of Fix agrees with its TLA+ definition (FixPure  *)
(* is the same text under a name Java does not override), on a grid of      *)
(* numbers that exercises carries, borrows, signs and long operands.        *)
EXTENDS Fix, TLC, FiniteSets
P == INSTANCE FixPure
Mags == { <<>>, <<1>>, <<9999>>, <<0,1>>, <<1,0,0,0,0,0,1>>, <<9999,9999,9999,9999,9999,9999,9999>>,
          <<5000,1234,0,0,9999,1,42,7>>, <<0,0,0,0,0,0,3>>, <<3333,3333,3333,3333,3333,3333>>,
          <<17,0,5,0,0,0,0,0,12,9>> }
Nums == { Mk(s, m) : s \in {-1,1}, m \in Mags }
VARIABLES a, b
Init == a \in Nums /\ b \in Nums
Next == UNCHANGED <<a, b>>
Agree == /\ FAdd(a,b) = P!FAdd(a,b)
         /\ FSub(a,b) = P!FSub(a,b)
         /\ FMul(a,b) = P!FMul(a,b)
         /\ FCmp(a,b) = P!FCmp(a,b)
         /\ FLt(a,b) = P!FLt(a,b) /\ FLe(a,b) = P!FLe(a,b)
         /\ (b # Zero => FDiv(a,b) = P!FDiv(a,b))
         /\ (a[1] >= 0 => FSqrt(a) = P!FSqrt(a))
         /\ \A n \in {-12, -1, 0, 3, 9999, 123456789} :
               /\ FInt(n) = P!FInt(n) /\ FMulI(a, n) = P!FMulI(a, n)
               /\ (n # 0 => FDivI(a, n) = P!FDivI(a, n))
\* algebraic sanity of the definitions themselves
Laws == /\ FAdd(a, b) = FAdd(b, a)
        /\ FSub(FAdd(a, b), b) = a
        /\ FMul(a, b) = FMul(b, a)
        /\ FMul(a, FInt(1)) = a
        /\ (a[1] >= 0 => LET r == FSqrt(a) IN FLe(FMul(r, r), a))
\* sin^2 + cos^2 = 1 and pure/Java agreement on a few angles
Angles == { FDivI(FInt(n), 7) : n \in {-20, -3, 0, 1, 5, 11, 22, 40} }
ASSUME \A x \in Angles :
   /\ FSin(x) = P!FSin(x) /\ FCos(x) = P!FCos(x)
   /\ FLt(FAbs(FSub(FAdd(FMul(FSin(x),FSin(x)), FMul(FCos(x),FCos(x))), FInt(1))), FPow10Neg(20))
ASSUME \A n \in 0..24 : LET p == FPow10Neg(n) IN FMul(p, IF n = 0 THEN FInt(1) ELSE FInt(1)) = p
ASSUME FMulI(FPow10Neg(3), 1000) = FInt(1) /\ FMulI(FPow10Neg(8), 100000000) = FInt(1)
=============================================================================
