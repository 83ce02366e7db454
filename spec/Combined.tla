------------------------------ MODULE Combined ------------------------------
(***************************************************************************)
(* The combined multi-agent inspection module: n agents, joint state of    *)
(* 6 n components and a last one (sun angle), joint desired control 3 n.   *)
(* Every agent's control is what the deputy module returns for that        *)
(* agent's desired control and its own view of the joint state.            *)
(* The deputy of this specification is a recording stand-in (a user-       *)
(* supplied deputy module): out_j = u_j + W_j . view, intervening iff      *)
(* view . V >= thr, its own limits; it can be switched off.                *)
(* state: [en, iv, den, div]                                               *)
(***************************************************************************)
EXTENDS LinAlg
\* positions of the joint state in agent i's view: the agent, the others in order, the sun
ViewIdx(n, i) == [k \in 1..6 |-> 6 * (i - 1) + k]
                 \o SelectSeq([k \in 1..6 * n |-> k], LAMBDA k : k <= 6 * (i - 1) \/ k > 6 * i)
                 \o <<6 * n + 1>>
View(n, i, x) == LET p == ViewIdx(n, i) IN TLCEval([k \in 1..Len(p) |-> x[p[k]]])
ClipTo(lo, hi, u) == TLCEval([j \in 1..Len(u) |->
    LET a == IF lo = <<>> THEN u[j] ELSE Max2(u[j], lo[IF Len(lo) = 1 THEN 1 ELSE j])
    IN  IF hi = <<>> THEN a ELSE Min2(a, hi[IF Len(hi) = 1 THEN 1 ELSE j])])
Deputy(c, den, v, u) == IF ~den THEN u ELSE ClipTo(c.dlow, c.dhigh, Add(u, MatVec(c.W, v)))
DepIv(c, v) == Dot(c.V, v) >= c.thr
InitC == [en |-> TRUE, iv |-> FALSE, den |-> TRUE, div |-> FALSE]
UOf(d, i) == SubSeq(d, 3 * (i - 1) + 1, 3 * i)
RECURSIVE Fly(_, _, _, _, _)
Fly(c, s, i, x, d) ==
    IF i > c.n THEN [out |-> <<>>, any |-> FALSE, div |-> s.div]
    ELSE LET v == View(c.n, i, x)
             div == IF s.den THEN DepIv(c, v) ELSE s.div
             q == Fly(c, [s EXCEPT !.div = div], i + 1, x, d)
         IN  [out |-> Deputy(c, s.den, v, UOf(d, i)) \o q.out, any |-> (s.den /\ div) \/ q.any, div |-> q.div]
\* stale: with the deputy off its flag belongs to an earlier call
FilterC(c, s, x, d) ==
    IF ~s.en THEN [st |-> s, out |-> d, stale |-> FALSE]
    ELSE LET q == Fly(c, s, 1, x, d)
         IN  [st |-> [s EXCEPT !.iv = q.any, !.div = q.div], out |-> ClipTo(c.low, c.high, q.out), stale |-> ~s.den /\ s.div]
OtherC(s, op) == CASE op.op = "reset" -> InitC
                   [] op.op = "enable" -> [s EXCEPT !.en = op.v]
                   [] op.op = "denable" -> [s EXCEPT !.den = op.v]
                   [] op.op = "info" -> s
=============================================================================
