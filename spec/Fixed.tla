------------------------------- MODULE Fixed -------------------------------
(* Fixed-point reals in [0,1] (and a little above) in units of 1e-8: TLC's   *)
(* integers have 32 bits, so products and quotients are taken in pieces.     *)
EXTENDS Integers, Sequences
One  == 100000000
Half ==  50000000
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

\* a * b / One for 0 <= a, b <= 1.05 One (error below 3 units)
Mul(a, b) == LET a1 == a \div 10000  a0 == a % 10000
                 b1 == b \div 10000  b0 == b % 10000
             IN  a1*b1 + (a1*b0 + a0*b1 + (a0*b0) \div 10000 + 5000) \div 10000

\* One * a / b for 0 <= a <= b, 0 < b <= 2.1 One (long division, eight digits)
Div(a, b) ==
  LET D(r) == (r*10) \div b
      R(r) == (r*10) % b
      r1 == R(a)  r2 == R(r1)  r3 == R(r2)  r4 == R(r3)  r5 == R(r4)  r6 == R(r5)  r7 == R(r6)
  IN  IF a = b THEN One
      ELSE D(a)*10000000 + D(r1)*1000000 + D(r2)*100000 + D(r3)*10000 + D(r4)*1000 + D(r5)*100 + D(r6)*10 + D(r7)

\* One * a / b, at most One
Div2(a, b) == IF a >= b THEN One ELSE Div(a, b)

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 \/ x = One THEN One ELSE IF n > 400 THEN 0 ELSE Mul(x, Pow(x, n-1))

\* equality up to the error of the fixed-point arithmetic
Tol == 600
Near(a, b) == Abs(a - b) <= Tol
=============================================================================
