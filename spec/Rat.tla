-------------------------------- MODULE Rat --------------------------------
(* Exact non-negative/signed rationals as reduced pairs <<num, den>>, den>0. *)
EXTENDS Integers, Sequences

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Abs(i) == IF i < 0 THEN -i ELSE i

Norm(n, d) ==                    \* d > 0
  IF n = 0 THEN <<0, 1>>
  ELSE LET g == GCD(Abs(n), d) IN << (IF n < 0 THEN -(Abs(n) \div g) ELSE n \div g), d \div g>>

R(n) == <<n, 1>>
RZero == <<0, 1>>
ROne == <<1, 1>>
\* cross-reduced so intermediate values stay small
RMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN RZero
  ELSE LET g == GCD(Abs(a[1]), b[2])  h == GCD(Abs(b[1]), a[2])
           n1 == IF a[1] < 0 THEN -(Abs(a[1]) \div g) ELSE a[1] \div g
           n2 == IF b[1] < 0 THEN -(Abs(b[1]) \div h) ELSE b[1] \div h
       IN <<n1 * n2, (a[2] \div h) * (b[2] \div g)>>
RAdd(a, b) ==
  LET g == GCD(a[2], b[2]) IN
  Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
\* probabilistic division: nothing over nothing is nothing
PDiv(a, b) == IF a[1] = 0 THEN RZero ELSE RDiv(a, b)
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RLt(a, b) == a[1] * b[2] <  b[1] * a[2]
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN ROne ELSE RMul(a, RPow(a, k - 1))

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSumSeq(Tail(s)))
RECURSIVE RProdSeq(_)
RProdSeq(s) == IF s = <<>> THEN ROne ELSE RMul(Head(s), RProdSeq(Tail(s)))
=============================================================================
