----------------------------- MODULE Constraints -----------------------------
(* The constraint library: state limits, strengtheners, higher-order constraints.

   kind "limit": |x_i| or x_i against a limit; states and limits in quarters, bias in 1/100, values in 1/400.
   kind "alpha": a polynomial strengthener; argument in halves, coefficients in 1/10000, values in 1/(10000 2^c.deg).
   kind "hocbf": integer polynomials; the limit is one more variable (the last), which the drift leaves alone. *)
EXTENDS MPoly

\* ---- limits
LimitVal(c, x4, l4) == CASE c.t = "max" -> 100 * (l4 - x4[c.i])
                         [] c.t = "min" -> 100 * (x4[c.i] - l4)
                         [] c.t = "mag" -> 25 * (l4 * l4 - x4[c.i] * x4[c.i])
Inside(c, x4, l4) == CASE c.t = "max" -> x4[c.i] <= l4 [] c.t = "min" -> x4[c.i] >= l4 [] c.t = "mag" -> Abs(x4[c.i]) <= Abs(l4)
\* gradient, in quarters
LimitGrad(c, x4) == [j \in 1..Len(x4) |-> IF j # c.i THEN 0 ELSE CASE c.t = "max" -> -4 [] c.t = "min" -> 4 [] c.t = "mag" -> -2 * x4[c.i]]

\* ---- strengtheners (a: coefficients in 1/10000, v2: argument in halves)
AlphaVal(a, v2, deg) == Sum([i \in 1..Len(a) |-> a[i] * Pow(v2, i - 1) * Pow(2, deg + 1 - i)])
DefaultLimitAlpha == <<0, 5, 0, 10>>
DefaultAlpha == <<0, 10000>>

\* ---- higher order
NV(c) == c.n + 1
BasePoly(c) == CASE c.base = "max" -> PAdd(PVar(NV(c), NV(c)), PScale(-1, PVar(NV(c), c.i)))
                 [] c.base = "min" -> PAdd(PVar(NV(c), c.i), PScale(-1, PVar(NV(c), NV(c))))
                 [] c.base = "mag" -> PAdd(PMul(PVar(NV(c), NV(c)), PVar(NV(c), NV(c))), PScale(-1, PMul(PVar(NV(c), c.i), PVar(NV(c), c.i))))
                 [] c.base = "poly" -> FromTerms(c.poly)
Drift(c) == TLCEval([k \in 1..c.n |-> FromTerms(c.drift[k])])
\* psi_0 = h (with its bias), psi_i = d psi_{i-1}/dt along the drift + alpha(psi_{i-1})
RECURSIVE Psi(_, _, _)
Psi(c, f, k) == IF k = 0 THEN PAdd(BasePoly(c), PConst(NV(c), c.bias))
                ELSE LET p == TLCEval(Psi(c, f, k - 1)) IN PAdd(Lie(p, f), PCompose(c.a, p, NV(c)))
HoPoly(c) == TLCEval(Psi(c, Drift(c), c.r - 1))
=============================================================================
