------------------------------- MODULE Term -------------------------------
(* Symbolic real numbers.  TLC has only 32-bit integers, so specifications of
   real-valued quantities build terms; the replay harness evaluates them.  A term
   is an integer, a string constant ("inf", "-inf", "nan", "pi") or a tuple
   <<operator, arguments...>>; E(t) marks a term for the harness. *)
EXTENDS Integers, Sequences

E(t)        == [e |-> t]
Add(a, b)   == <<"+", a, b>>
Sub(a, b)   == <<"-", a, b>>
Neg(a)      == <<"-", a>>
Mul(a, b)   == <<"*", a, b>>
Div(a, b)   == <<"/", a, b>>
Pow(a, b)   == <<"^", a, b>>
Log(a)      == <<"log", a>>
Exp(a)      == <<"exp", a>>
Sqrt(a)     == <<"sqrt", a>>
Abs(a)      == <<"abs", a>>
Max2(a, b)  == <<"max", a, b>>
Min2(a, b)  == <<"min", a, b>>
Sqr(a)      == <<"*", a, a>>
Half(a)     == <<"/", a, 2>>
Rat(n, d)   == <<"/", n, d>>
SumT(s)     == IF s = <<>> THEN 0 ELSE <<"+">> \o s
ProdT(s)    == IF s = <<>> THEN 1 ELSE <<"*">> \o s
MaxT(s)     == <<"max">> \o s
\* log(sum(exp(s)))
LogSumExp(s) == Log(SumT([i \in 1..Len(s) |-> Exp(s[i])]))
Log2Pi      == Log(Mul(2, "pi"))
\* standard normal log-density at a term
LogPhi(z)   == Neg(Half(Add(Log2Pi, Sqr(z))))

\* Exact rationals as records [n, d], d > 0 (kept small by the specifications)
RECURSIVE GCD(_, _)
GCD(a, b)   == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE GCD(b, a % b)
AbsI(a)     == IF a < 0 THEN -a ELSE a
Q(n, d)     == LET g == GCD(AbsI(n), AbsI(d)) gg == IF g = 0 THEN 1 ELSE g
                   s == IF d < 0 THEN -1 ELSE 1
               IN [n |-> s * (n \div gg), d |-> s * (d \div gg)]
QI(n)       == [n |-> n, d |-> 1]
QAdd(a, b)  == Q(a.n * b.d + b.n * a.d, a.d * b.d)
QSub(a, b)  == Q(a.n * b.d - b.n * a.d, a.d * b.d)
QMul(a, b)  == Q(a.n * b.n, a.d * b.d)
QDiv(a, b)  == IF b.n > 0 THEN Q(a.n * b.d, a.d * b.n) ELSE Q(-(a.n * b.d), -(a.d * b.n))
QLe(a, b)   == a.n * b.d <= b.n * a.d
QLt(a, b)   == a.n * b.d < b.n * a.d
QMax(a, b)  == IF QLe(a, b) THEN b ELSE a
QMin(a, b)  == IF QLe(a, b) THEN a ELSE b
QT(a)       == <<"/", a.n, a.d>>
=============================================================================
