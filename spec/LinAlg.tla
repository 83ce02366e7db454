------------------------------- MODULE LinAlg -------------------------------
(* Small exact integer / rational linear algebra used by every specification. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* TLCEval forces TLC to evaluate a function constructor once instead of at every application. *)

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Sum(s) == SumTo(s, Len(s))

Dot(a, b)      == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
MatVec(M, x)   == TLCEval([r \in 1..Len(M) |-> Dot(M[r], x)])
Col(M, j)      == TLCEval([r \in 1..Len(M) |-> M[r][j]])
MatMul(P, Q)   == TLCEval([r \in 1..Len(P) |-> [j \in 1..Len(Q[1]) |-> Dot(P[r], Col(Q, j))]])
VecMat(v, M)   == TLCEval([j \in 1..Len(M[1]) |-> Dot(v, Col(M, j))])
Add(a, b)      == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
Sub(a, b)      == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])
Scale(k, a)    == TLCEval([i \in 1..Len(a) |-> k * a[i]])
MatAdd(P, Q)   == TLCEval([r \in 1..Len(P) |-> Add(P[r], Q[r])])
MatScale(k, P) == TLCEval([r \in 1..Len(P) |-> Scale(k, P[r])])
Ident(n)       == TLCEval([r \in 1..n |-> [j \in 1..n |-> IF r = j THEN 1 ELSE 0]])
Unit(n, i)     == TLCEval([j \in 1..n |-> IF i = j THEN 1 ELSE 0])
Zero(n)        == TLCEval([j \in 1..n |-> 0])

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Poly(coefs, v) == Sum([i \in 1..Len(coefs) |-> coefs[i] * Pow(v, i - 1)])

\* floor(sqrt(n)) by bisection (exact)
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == IF lo >= hi THEN lo
                     ELSE LET mid == (lo + hi + 1) \div 2
                          IN  IF mid <= n \div mid THEN ISqrtB(n, mid, hi) ELSE ISqrtB(n, lo, mid - 1)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtB(n, 1, Min2(n, 46340))

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

RECURSIVE SetToSeqS(_)
SetToSeqS(X) == IF X = {} THEN <<>> ELSE LET e == CHOOSE e \in X : TRUE IN <<e>> \o SetToSeqS(X \ {e})

ElemsOf(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
