------------------------------ MODULE FixMath ------------------------------
(* Fixed point arithmetic inside TLC's 32 bit integers.  Unit is the value 1.0. *)
EXTENDS Integers, Sequences
Unit == 8192
Hi == 32768                                     \* unit used inside the series
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Clip(x, lo, hi) == Max2(lo, Min2(hi, x))
(* product of two fixed point numbers; |b| below 32.0 *)
Mul(a, b) == ((a \div Unit) * b) + (((a % Unit) * b) \div Unit)
Div(a, b) == IF b < 0 THEN -(((a \div (-b)) * Unit) + (((a % (-b)) * Unit) \div (-b)))
             ELSE ((a \div b) * Unit) + (((a % b) * Unit) \div b)        \* |b| below 32.0
(* a * n / d for small integers n, d *)
Frac(a, n, d) == ((a \div d) * n) + (((a % d) * n) \div d)
Near(a, b, tol) == Abs(a) < 1000000000 /\ Abs(a) # 999999937 /\ Abs(a - b) <= tol
Within(a, lo, hi, tol) == Abs(a) < 900000000 /\ lo - tol <= a /\ a <= hi + tol
SMin(X) == CHOOSE x \in X : \A y \in X : x <= y
SMax(X) == CHOOSE x \in X : \A y \in X : x >= y
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(f) == SumTo(f, Len(f))
RECURSIVE MaxTo(_, _)
MaxTo(f, n) == IF n = 1 THEN f[1] ELSE Max2(f[n], MaxTo(f, n - 1))
MaxSeq(f) == MaxTo(f, Len(f))
RECURSIVE MinTo(_, _)
MinTo(f, n) == IF n = 1 THEN f[1] ELSE Min2(f[n], MinTo(f, n - 1))
MinSeq(f) == MinTo(f, Len(f))

(* exp: x = k*ln2 - r with 0 <= r < ln2, so exp(x) = 2^k * exp(-r) *)
Ln2Hi == 22713
RECURSIVE Halve(_, _)
Halve(x, k) == IF k <= 0 THEN x ELSE Halve((x + 1) \div 2, k - 1)
RECURSIVE Twice(_, _)
Twice(x, k) == IF k <= 0 THEN x ELSE Twice(2 * x, k - 1)
MulH(a, b) == (a * b) \div Hi
ExpNeg(r) == (* exp(-r), 0 <= r < ln 2, in Hi units (Horner) *)
  LET t5 == Hi - (r \div 6)
      t4 == Hi - MulH(r, t5) \div 5
      t3 == Hi - MulH(r, t4) \div 4
      t2 == Hi - MulH(r, t3) \div 3
      t1 == Hi - MulH(r, t2) \div 2
  IN Hi - MulH(r, t1)
(* exp in Hi units *)
ExpHi(x) == IF x < -(14 * Unit) THEN 0
            ELSE LET y == 4 * x
                     k == -((-y) \div Ln2Hi)
                     r == (k * Ln2Hi) - y
                     e == ExpNeg(r)
                 IN IF k <= 0 THEN Halve(e, -k) ELSE Twice(e, k)
Exp(x) == (ExpHi(x) + 2) \div 4

(* natural logarithm of p > 0 *)
RECURSIVE NormUp(_, _)
NormUp(p, k) == IF p < Hi THEN NormUp(2 * p, k - 1) ELSE <<p, k>>
RECURSIVE NormDown(_, _)
NormDown(p, k) == IF p >= 2 * Hi THEN NormDown(p \div 2, k + 1) ELSE <<p, k>>
LnHi(p) == (* p in Hi units; result in Hi units *)
  LET n == IF p < Hi THEN NormUp(p, 0) ELSE NormDown(p, 0)
      z == ((n[1] - Hi) * Hi) \div (n[1] + Hi)          \* (m-1)/(m+1), m in [1,2)
      z2 == MulH(z, z)
      s == Hi + MulH(z2, (Hi \div 3) + MulH(z2, (Hi \div 5) + MulH(z2, Hi \div 7)))
  IN (2 * MulH(z, s)) + (n[2] * Ln2Hi)
Ln(p) == (LnHi(4 * p) + 2) \div 4

(* softmax of a sequence of fixed point scores over the allowed positions, in Unit units *)
SoftmaxOver(x, ok) ==
  LET top == SMax({x[i] : i \in ok})
      e == [i \in 1..Len(x) |-> IF i \in ok THEN ExpHi(x[i] - top) ELSE 0]
      z == SumSeq(e)
  IN [i \in 1..Len(x) |-> IF i \in ok THEN ((e[i] * Unit) \div z) ELSE 0]
Softmax(x) == SoftmaxOver(x, 1..Len(x))
(* log of the sum of exponentials *)
LogSumExp(x) == LET top == MaxSeq(x) IN top + Ln(SumSeq([i \in 1..Len(x) |-> Exp(x[i] - top)]))
LogSoftmax(x) == LET z == LogSumExp(x) IN [i \in 1..Len(x) |-> x[i] - z]

(* floor of the square root of a non-negative integer *)
RECURSIVE IsqrtIn(_, _, _)
IsqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN IsqrtIn(n, m, hi) ELSE IsqrtIn(n, lo, m)
Isqrt(n) == IsqrtIn(n, 0, 46341)
(* square root of a fixed point number below 8.0 *)
Sqrt(x) == IF x < 262144 THEN Isqrt(x * Unit) ELSE 2 * Isqrt((x \div 4) * Unit)
=============================================================================
