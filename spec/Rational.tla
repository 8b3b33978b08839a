------------------------------ MODULE Rational ------------------------------
(* Exact rational arithmetic on pairs <<n, d>>, d > 0, in lowest terms.       *)
(* TLC's integers have 32 bits, so a result whose parts leave the interval    *)
(* [-Lim, Lim] is the absorbing value Big = <<1, 0>> ("not represented");     *)
(* an undefined result (division by zero) is Undef = <<0, 0>>.                *)
EXTENDS Integers

Lim   == 30000
Big   == <<1, 0>>
Undef == <<0, 0>>

Abs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Fits(n, d) == n <= Lim /\ -n <= Lim /\ d <= Lim

\* The rational n / d for d # 0
Rat(n, d) ==
    IF d = 0 THEN Undef
    ELSE LET g == Gcd(Abs(n), Abs(d))
             s == IF d < 0 THEN -1 ELSE 1
             a == s * (n \div g)
             b == s * (d \div g)
         IN IF n = 0 THEN <<0, 1>> ELSE IF Fits(a, b) THEN <<a, b>> ELSE Big

IsDef(q)   == q[2] # 0
Both(p, q) == IsDef(p) /\ IsDef(q)
\* What an operation on an undefined or unrepresented operand gives
Poison(p, q) == IF p = Undef \/ q = Undef THEN Undef ELSE Big

RAdd(p, q) == IF Both(p, q) THEN Rat(p[1] * q[2] + q[1] * p[2], p[2] * q[2]) ELSE Poison(p, q)
RSub(p, q) == IF Both(p, q) THEN Rat(p[1] * q[2] - q[1] * p[2], p[2] * q[2]) ELSE Poison(p, q)
RMul(p, q) == IF Both(p, q) THEN Rat(p[1] * q[1], p[2] * q[2]) ELSE Poison(p, q)
RDiv(p, q) == IF q = <<0, 1>> THEN Undef
              ELSE IF Both(p, q)
                   THEN (IF q[1] < 0 THEN Rat(-p[1] * q[2], p[2] * (-q[1])) ELSE Rat(p[1] * q[2], p[2] * q[1]))
                   ELSE Poison(p, q)
RNeg(p)    == IF IsDef(p) THEN <<-p[1], p[2]>> ELSE p
RAbs(p)    == IF IsDef(p) THEN <<Abs(p[1]), p[2]>> ELSE p
RLt(p, q)  == p[1] * q[2] < q[1] * p[2]
RLe(p, q)  == p[1] * q[2] <= q[1] * p[2]
REq(p, q)  == p = q
RMax(p, q) == IF RLt(p, q) THEN q ELSE p
RMin(p, q) == IF RLt(p, q) THEN p ELSE q
I(n)       == <<n, 1>>

RECURSIVE RPowNat(_, _)
RPowNat(p, k) == IF k = 0 THEN I(1) ELSE RMul(p, RPowNat(p, k - 1))
\* p ^ q for integer q of small size; other exponents are not represented
RPow(p, q) ==
    IF ~Both(p, q) THEN Poison(p, q)
    ELSE IF q[2] # 1 \/ q[1] > 15 \/ q[1] < -15 THEN Big
    ELSE IF q[1] >= 0 THEN RPowNat(p, q[1])
    ELSE IF p[1] = 0 THEN Big                \* infinite, not an error
    ELSE RDiv(I(1), RPowNat(p, -q[1]))
=============================================================================
