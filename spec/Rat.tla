--------------------------------- MODULE Rat ---------------------------------
(***************************************************************************)
(* Exact rational arithmetic for TLC.                                      *)
(*                                                                         *)
(* A rational is <<num, den>>, den > 0, in lowest terms.  TLC integers are *)
(* 32-bit and TLC raises an error on overflow, so every operation reduces  *)
(* as early as possible and comparisons never cross-multiply.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* Canonical form of n/d, for d # 0. *)
Rat(n, d) ==
  IF d = 1 THEN <<n, 1>>
  ELSE LET g == Gcd(Abs(n), Abs(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN <<s * (n \div g), s * (d \div g)>>

I2R(n) == <<n, 1>>
RZero == <<0, 1>>
ROne == <<1, 1>>

RNeg(a) == <<-a[1], a[2]>>
RAbs(a) == <<Abs(a[1]), a[2]>>
RAdd(a, b) ==
  IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] + b[1], 1>>
  ELSE LET g == Gcd(a[2], b[2])
           da == a[2] \div g
           db == b[2] \div g
       IN Rat(a[1] * db + b[1] * da, a[2] * db)
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
  ELSE LET g1 == Gcd(Abs(a[1]), b[2])
           g2 == Gcd(Abs(b[1]), a[2])
       IN <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RSgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

(* a < b by continued fractions: no product is ever formed. *)
RECURSIVE RLt(_, _)
RLt(a, b) ==
  LET fa == a[1] \div a[2]
      fb == b[1] \div b[2]
  IN IF fa # fb THEN fa < fb
     ELSE LET ra == a[1] - fa * a[2]
              rb == b[1] - fb * b[2]
          IN IF rb = 0 THEN FALSE
             ELSE IF ra = 0 THEN TRUE
             ELSE RLt(<<b[2], rb>>, <<a[2], ra>>)
RLe(a, b) == ~RLt(b, a)
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RClip(x, lo, hi) == RMin(RMax(x, lo), hi)

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE RPow(_, _)
RPow(a, e) == IF e = 0 THEN ROne ELSE RMul(a, RPow(a, e - 1))

(* floor(a * 10^k), digit by digit; BIG when it does not fit. *)
BIG == 2000000000
(* <<digit, rest>> of a number x < den, ten times over, without forming 10 x. *)
Twice(d, x, den) == IF x >= den - x THEN <<2 * d + 1, x - (den - x)>> ELSE <<2 * d, 2 * x>>
Plus(d, x, y, den) == IF x >= den - y THEN <<d + 1, x - (den - y)>> ELSE <<d, x + y>>
TenTimes(x, den) ==
  IF den < 200000000 THEN <<(x * 10) \div den, (x * 10) % den>>
  ELSE LET a == Twice(0, x, den)
           b == Twice(a[1], a[2], den)
           c == Plus(b[1], b[2], x, den)
       IN Twice(c[1], c[2], den)
RECURSIVE FracDigits(_, _, _, _)
FracDigits(acc, rem, den, k) ==
  IF k = 0 THEN acc
  ELSE LET t == TenTimes(rem, den) IN FracDigits(acc * 10 + t[1], t[2], den, k - 1)
Scaled(a, k) ==
  LET q == a[1] \div a[2]
      r == a[1] - q * a[2]
  IN IF q # 0 /\ (k > 9 \/ Abs(q) >= BIG \div Pow(10, k)) THEN (IF q < 0 THEN -BIG ELSE BIG)
     ELSE FracDigits(q, r, a[2], k)

(* An observation o (an integer, scaled by 10^k) is within tol units of a. *)
Near(o, a, k, tol) == Abs(o - Scaled(a, k)) <= tol + 1
=============================================================================
