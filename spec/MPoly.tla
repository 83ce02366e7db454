-------------------------------- MODULE MPoly --------------------------------
(* Exact multivariate polynomials with integer coefficients: functions from exponent tuples to coefficients. *)
EXTENDS LinAlg

PZero(n) == (Zero(n) :> 0)
PConst(n, k) == (Zero(n) :> k)
PVar(n, i) == (Unit(n, i) :> 1)
Coef(p, e) == IF e \in DOMAIN p THEN p[e] ELSE 0
Trim(p) == LET d == {e \in DOMAIN p : p[e] # 0} IN TLCEval([e \in d |-> p[e]])
PAdd(p, q) == Trim([e \in DOMAIN p \cup DOMAIN q |-> Coef(p, e) + Coef(q, e)])
PScale(k, p) == Trim([e \in DOMAIN p |-> k * p[e]])

RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN 0 ELSE LET e == CHOOSE e \in D : TRUE IN f[e] + SumOver(f, D \ {e})

\* one term of q times p, then accumulated
PShift(p, e, k) == LET d == {Add(a, e) : a \in DOMAIN p} IN TLCEval([b \in d |-> k * p[Sub(b, e)]])
RECURSIVE PMulAcc(_, _, _, _)
PMulAcc(p, q, D, acc) == IF D = {} THEN acc ELSE LET e == CHOOSE e \in D : TRUE IN PMulAcc(p, q, D \ {e}, PAdd(acc, PShift(p, e, q[e])))
PMul(p, q) == PMulAcc(p, q, DOMAIN q, << >>)

PDiff(p, i) == LET n == IF DOMAIN p = {} THEN 0 ELSE Len(CHOOSE e \in DOMAIN p : TRUE)
                   keep == {e \in DOMAIN p : e[i] > 0}
                   d == {Sub(e, Unit(n, i)) : e \in keep}
               IN  Trim([b \in d |-> (b[i] + 1) * p[Add(b, Unit(n, i))]])

RECURSIVE MonoTo(_, _, _)
MonoTo(x, e, k) == IF k = 0 THEN 1 ELSE Pow(x[k], e[k]) * MonoTo(x, e, k - 1)
PEval(p, x) == SumOver(TLCEval([e \in DOMAIN p |-> p[e] * MonoTo(x, e, Len(x))]), DOMAIN p)

\* a(p) for a univariate polynomial given by its coefficients (Horner)
RECURSIVE HornerFrom(_, _, _, _)
HornerFrom(a, p, k, n) == IF k > Len(a) THEN << >>
                          ELSE PAdd(PConst(n, a[k]), PMul(p, HornerFrom(a, p, k + 1, n)))
PCompose(a, p, n) == Trim(HornerFrom(a, p, 1, n))

\* terms as read from a configuration: sequence of [c, e]
RECURSIVE FromTermsK(_, _)
FromTermsK(ts, k) == IF k = 0 THEN << >> ELSE PAdd((ts[k].e :> ts[k].c), FromTermsK(ts, k - 1))
FromTerms(ts) == Trim(FromTermsK(ts, Len(ts)))

\* derivative of p along a polynomial vector field
RECURSIVE LieTo(_, _, _)
LieTo(p, f, k) == IF k = 0 THEN << >> ELSE PAdd(PMul(PDiff(p, k), f[k]), LieTo(p, f, k - 1))
Lie(p, f) == LieTo(p, f, Len(f))
=============================================================================
