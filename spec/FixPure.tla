------------------------------- MODULE FixPure -------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic on unbounded integers.                      *)
(*                                                                         *)
(* TLC integers are 32 bits wide, so a number of the specification is a    *)
(* pair <<s, m>>: its sign s \in {-1,0,1} and its magnitude m, a little    *)
(* endian sequence of limbs in base 10^4 without leading zero limb.  The   *)
(* number <<s, m>> stands for  s * (\sum m[i] * 10^(4(i-1))) * 10^-24.     *)
(*                                                                         *)
(* Every operator below is defined in plain TLA+.  The arithmetic ones are *)
(* also implemented in java/Fix.java (BigInteger), which TLC substitutes   *)
(* for speed; FixTest.tla checks that the two agree (it INSTANCEs this     *)
(* text under the name FixPure, which Java does not override).             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base   == 10000
FracLimbs == 6                      \* 6 limbs of 4 digits: resolution 1e-24

Zero == <<0, <<>>>>

RECURSIVE Strip(_)
Strip(m) == IF m = <<>> THEN m
            ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m)-1)) ELSE m

Max2(a, b) == IF a >= b THEN a ELSE b
Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

\* magnitudes ---------------------------------------------------------------
RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE MagCmpAt(a, b, i-1)
MagCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1
                ELSE MagCmpAt(a, b, Len(a))

RECURSIVE MagAddAt(_, _, _, _, _)
MagAddAt(a, b, i, c, acc) ==
  IF i > Max2(Len(a), Len(b))
  THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET t == Limb(a, i) + Limb(b, i) + c
       IN MagAddAt(a, b, i+1, t \div Base, Append(acc, t % Base))
MagAdd(a, b) == MagAddAt(a, b, 1, 0, <<>>)

RECURSIVE MagSubAt(_, _, _, _, _)
MagSubAt(a, b, i, c, acc) ==        \* a >= b
  IF i > Len(a) THEN acc
  ELSE LET t == a[i] - Limb(b, i) - c
       IN MagSubAt(a, b, i+1, IF t < 0 THEN 1 ELSE 0,
                   Append(acc, IF t < 0 THEN t + Base ELSE t))
MagSub(a, b) == Strip(MagSubAt(a, b, 1, 0, <<>>))

RECURSIVE MagScaleAt(_, _, _, _, _)
MagScaleAt(a, k, i, c, acc) ==      \* 0 <= k < Base
  IF i > Len(a) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET t == a[i] * k + c
       IN MagScaleAt(a, k, i+1, t \div Base, Append(acc, t % Base))
MagScale(a, k) == IF k = 0 THEN <<>> ELSE MagScaleAt(a, k, 1, 0, <<>>)

RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN <<>> ELSE <<0>> \o Zeros(n-1)
MagShl(a, n) == IF a = <<>> THEN a ELSE Zeros(n) \o a
MagShr(a, n) == IF n >= Len(a) THEN <<>> ELSE SubSeq(a, n+1, Len(a))

RECURSIVE MagMulAt(_, _, _)
MagMulAt(a, b, i) == IF i > Len(b) THEN <<>>
                     ELSE MagAdd(MagScale(a, b[i]), MagShl(MagMulAt(a, b, i+1), 1))
MagMul(a, b) == Strip(MagMulAt(a, b, 1))

\* largest k in lo..hi with k*b <= r
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MagCmp(Strip(MagScale(b, mid)), r) <= 0 THEN QDigit(r, b, mid, hi)
          ELSE QDigit(r, b, lo, mid-1)

RECURSIVE MagDivAt(_, _, _, _, _)
MagDivAt(a, b, i, r, q) ==          \* schoolbook, most significant limb first
  IF i = 0 THEN Strip(q)
  ELSE LET r1 == Strip(<<a[i]>> \o r)
           k  == QDigit(r1, b, 0, Base-1)
       IN MagDivAt(a, b, i-1, MagSub(r1, Strip(MagScale(b, k))), <<k>> \o q)
MagDiv(a, b) == MagDivAt(a, b, Len(a), <<>>, <<>>)

\* integer square root by Newton iteration from above
RECURSIVE MagSqrtFrom(_, _)
MagSqrtFrom(a, x) ==
  LET y == MagDiv(MagAdd(x, MagDiv(a, x)), <<2>>)
  IN IF MagCmp(y, x) >= 0 THEN x ELSE MagSqrtFrom(a, y)
MagSqrt(a) == IF a = <<>> THEN a
              ELSE MagSqrtFrom(a, Zeros((Len(a)+1) \div 2) \o <<1>>)

Mk(s, m) == IF m = <<>> THEN Zero ELSE <<s, m>>

\* numbers --------------------------------------------------------------------
FNeg(a) == <<-a[1], a[2]>>
FAbs(a) == <<a[1]*a[1], a[2]>>
FSign(a) == a[1]

FAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN <<a[1], MagAdd(a[2], b[2])>>
  ELSE LET c == MagCmp(a[2], b[2])
       IN IF c = 0 THEN Zero
          ELSE IF c > 0 THEN Mk(a[1], MagSub(a[2], b[2]))
          ELSE Mk(b[1], MagSub(b[2], a[2]))
FSub(a, b) == FAdd(a, FNeg(b))

FCmp(a, b) == FSign(FSub(a, b))
FLt(a, b) == FCmp(a, b) < 0
FLe(a, b) == FCmp(a, b) <= 0

\* product and quotient are truncated towards zero at 1e-24
FMul(a, b) == Mk(a[1]*b[1], MagShr(MagMul(a[2], b[2]), FracLimbs))
FDiv(a, b) == Mk(a[1]*b[1], MagDiv(MagShl(a[2], FracLimbs), b[2]))
FSqrt(a)   == Mk(a[1], MagSqrt(MagShl(a[2], FracLimbs)))

RECURSIVE NatMag(_)
NatMag(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NatMag(n \div Base)
FInt(n) == IF n = 0 THEN Zero
           ELSE <<IF n < 0 THEN -1 ELSE 1, MagShl(NatMag(IF n < 0 THEN -n ELSE n), FracLimbs)>>

FMulI(a, n) == FMul(a, FInt(n))
FDivI(a, n) == FDiv(a, FInt(n))

\* sine and cosine by their power series (for |x| <= 64)
RECURSIVE Series(_, _, _, _)
Series(x2, term, n, acc) ==   \* term = (-1)^k x^n/n!; next has degree n+2
  IF term = Zero THEN acc
  ELSE Series(x2, FNeg(FDivI(FDivI(FMul(term, x2), n+1), n+2)), n+2, FAdd(acc, term))
FSin(x) == Series(FMul(x, x), x, 1, Zero)
FCos(x) == Series(FMul(x, x), FInt(1), 0, Zero)

\* the integer  a * 10^24 * 10^-(4k)  rounded towards zero when it fits in 32 bits: used for printing
FPow10Neg(n) ==     \* 10^-n, 0 <= n <= 24
  <<1, LET d == 24 - n IN Zeros(d \div 4) \o <<CASE d % 4 = 0 -> 1 [] d % 4 = 1 -> 10 [] d % 4 = 2 -> 100 [] OTHER -> 1000>>>>
=============================================================================
