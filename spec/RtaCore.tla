------------------------------- MODULE RtaCore -------------------------------
(***************************************************************************)
(* The state machine of one run-time-assurance module attached to an       *)
(* integer-exact plant.  A configuration record cfg says which module      *)
(* kind it is and how it was constructed; a state record st is what the    *)
(* module remembers between calls:                                         *)
(*   en    enable switch            iv    last decision (intervening)      *)
(*   el    time latched so far, ms  cs    backup controller memory         *)
(*   lim   constraint parameters    con   constraint enabled flags         *)
(*   dlim, dcon   the same for direct inequalities                         *)
(*   vals  logged constraint values (<<>> = none), stale = key they are    *)
(*         logged under                                                    *)
(* Kinds: "es"/"is" explicit/implicit switching, "ea"/"ia" explicit/       *)
(* implicit optimization, "da" discrete optimization.                      *)
(***************************************************************************)
EXTENDS Qp

----------------------------------------------------------------------------
(* Construction: of the constraints the class defines, a list of names keeps exactly the named ones in their   *)
(* defined order (cfg.sel: a list was given); a list that names none of them is rejected.                      *)
Selected(cfg) == IF cfg.sel THEN SelectSeq(cfg.defined, LAMBDA c : c.name \in ElemsOf(cfg.use)) ELSE cfg.defined
Effective(cfg) == [cfg EXCEPT !.cons = Selected(cfg)]
Constructible(cfg) == Selected(cfg) # <<>>

----------------------------------------------------------------------------
(* Plant *)
GOf(cfg, x) == IF cfg.Bx = <<>> THEN cfg.B
               ELSE [r \in 1..Len(cfg.B) |-> [j \in 1..Len(cfg.B[r]) |->
                        cfg.B[r][j] + Sum([i \in 1..Len(x) |-> x[i] * cfg.Bx[i][r][j]])]]
\* drift: affine, plus quadratic forms Q (one matrix per component) when there are any
Quad(Q, x) == TLCEval([r \in 1..Len(Q) |-> Dot(x, MatVec(Q[r], x))])
FOf(cfg, x) == LET lin == Add(MatVec(cfg.A, x), cfg.c) IN IF cfg.Q = <<>> THEN lin ELSE Add(lin, Quad(cfg.Q, x))
\* step of length h: "ct" one Euler step, "dt" a step that does not depend on the length, "ode" the exact flow of a
\* plant with A A = 0 and constant input matrix (h even)
Pred(cfg, x, h, u) == LET k == IF cfg.mode = "dt" THEN 1 ELSE h
                          v == Add(FOf(cfg, x), MatVec(GOf(cfg, x), u))
                      IN  IF cfg.mode = "ode" THEN Add(x, Add(Scale(h, v), Scale((h * h) \div 2, MatVec(cfg.A, v))))
                          ELSE Add(x, Scale(k, v))

----------------------------------------------------------------------------
(* Constraints: h(x) = RawVal + bias, satisfied when >= 0 *)
RawVal(c, lim, x) == CASE c.t = "max" -> lim - x[c.i]
                       [] c.t = "min" -> x[c.i] - lim
                       [] c.t = "mag" -> lim * lim - x[c.i] * x[c.i]
                       [] c.t = "lin" -> Dot(c.w, x) + lim
                       [] c.t = "scl" -> lim * Dot(c.w, x) + c.i
                       [] c.t = "ho"  -> lim - x[c.i]
DPoly(a, v) == Sum([k \in 1..(Len(a) - 1) |-> k * a[k + 1] * Pow(v, k - 1)])
\* "ho": maximum limit raised to relative degree 2, psi_1 = d(lim - x_i)/dt along the drift (row w of the drift matrix)
\* + strengthener(lim - x_i); what is logged is still lim - x_i
HVal(c, lim, x) == (IF c.t = "ho" THEN Poly(c.a, lim - x[c.i]) - Dot(c.w, x) ELSE RawVal(c, lim, x)) + c.bias
Grad(c, lim, x) == LET n == Len(x) IN
                   CASE c.t = "max" -> Scale(-1, Unit(n, c.i))
                     [] c.t = "min" -> Unit(n, c.i)
                     [] c.t = "mag" -> Scale(-2 * x[c.i], Unit(n, c.i))
                     [] c.t = "lin" -> c.w
                     [] c.t = "scl" -> Scale(lim, c.w)
                     [] c.t = "ho"  -> Scale(-1, Add(c.w, Scale(DPoly(c.a, lim - x[c.i]), Unit(n, c.i))))
NC(cfg) == Len(cfg.cons)
SafeAt(cfg, st, x) == \A i \in 1..NC(cfg) : st.con[i] => HVal(cfg.cons[i], st.lim[i], x) >= 0
RawVals(cfg, st, x) == [i \in 1..NC(cfg) |-> RawVal(cfg.cons[i], st.lim[i], x)]

----------------------------------------------------------------------------
(* Actuation *)
Clip1(v, lo, hi) == LET a == IF lo = <<>> THEN v ELSE Max2(v, lo[1]) IN IF hi = <<>> THEN a ELSE Min2(a, hi[1])
At(s, i) == IF s = <<>> THEN <<>> ELSE <<s[i]>>
Clip(cfg, u) == [i \in 1..Len(u) |-> Clip1(u[i], At(cfg.low, i), At(cfg.high, i))]

----------------------------------------------------------------------------
(* Backup controller: memory cs is a number (0 for memoryless ones) *)
Backup(cfg, x, cs) ==
    LET b == cfg.bk IN
    CASE b.t = "lin" -> [u |-> Clip(cfg, Add(MatVec(b.K, x), b.c)), cs |-> 0]
      [] b.t = "pat" -> [u |-> Clip(cfg, b.seq[Min2(cs, Len(b.seq) - 1) + 1]), cs |-> (cs + 1) % b.mod]
      [] b.t = "acc" -> [u |-> Clip(cfg, Add(Scale(cs, b.c), MatVec(b.K, x))), cs |-> (cs + 1 + Abs(x[1])) % b.mod]
      [] b.t = "gain" -> [u |-> Clip(cfg, Add(Scale(cs, MatVec(b.K, x)), b.c)), cs |-> (cs + 1) % b.mod]

\* states of the backup trajectory: the k states after x, threading the controller memory
RECURSIVE BackupTraj(_, _, _, _, _)
BackupTraj(cfg, x, h, cs, k) ==
    IF k = 0 THEN <<>>
    ELSE LET b == Backup(cfg, x, cs)
             y == Pred(cfg, x, h, b.u)
         IN  <<y>> \o BackupTraj(cfg, y, h, b.cs, k - 1)
Steps(cfg, dtm) == cfg.win \div dtm

----------------------------------------------------------------------------
(* Switching *)
Unsafe(cfg, st, x, h, dtm, u) ==
    LET y == Pred(cfg, x, h, u)
    IN  \/ ~SafeAt(cfg, st, y)
        \/ cfg.kind = "is" /\ LET t == BackupTraj(cfg, y, h, st.cs, Steps(cfg, dtm))
                              IN  \E i \in 1..Len(t) : ~SafeAt(cfg, st, t[i])

IntPoint(u) == PointOf(u)
SwitchStep(cfg, st, x, h, dtm, d) ==
    LET du   == Clip(cfg, d)
        held == st.iv /\ st.el < cfg.latch
        el0  == IF st.iv /\ ~held THEN 0 ELSE st.el
        trip == Unsafe(cfg, st, x, h, dtm, du)
        b    == Backup(cfg, x, st.cs)
    IN  IF held THEN [st |-> [st EXCEPT !.el = @ + dtm, !.cs = b.cs], out |-> IntPoint(b.u), status |-> "ok", res |-> <<>>]
        ELSE IF trip THEN [st |-> [st EXCEPT !.el = el0, !.iv = TRUE, !.cs = b.cs], out |-> IntPoint(b.u), status |-> "ok", res |-> <<>>]
        ELSE [st |-> [st EXCEPT !.el = el0, !.iv = FALSE], out |-> IntPoint(du), status |-> "ok", res |-> <<>>]

----------------------------------------------------------------------------
(* Optimization: rows of the quadratic program, right-hand sides scaled by cfg.BS *)
BoundRows(cfg) ==
    LET m  == Len(cfg.B[1])
        lo == IF cfg.low = <<>> THEN <<>>
              ELSE [i \in 1..m |-> [w |-> Unit(m, i), b |-> cfg.BS * cfg.low[i], name |-> cfg.unames[i].lo, soft |-> 0]]
        hi == IF cfg.high = <<>> THEN <<>>
              ELSE [i \in 1..m |-> [w |-> Scale(-1, Unit(m, i)), b |-> -cfg.BS * cfg.high[i], name |-> cfg.unames[i].hi, soft |-> 0]]
    IN  lo \o hi
\* direct inequality: weight and constant may depend on the state (wx, bx) and on the parameter (wp)
DirectW(d, lim, x) ==
    LET w1 == IF d.wp = <<>> THEN d.w ELSE Add(d.w, Scale(lim, d.wp))
    IN  IF d.wx = <<>> THEN w1 ELSE Add(w1, VecMat(x, d.wx))
DirectB(d, lim, x) == lim + (IF d.bx = <<>> THEN 0 ELSE Dot(d.bx, x))
DirectRows(cfg, st, x) ==
    Flatten([i \in 1..Len(cfg.direct) |->
        IF st.dcon[i] THEN << [w |-> DirectW(cfg.direct[i], st.dlim[i], x), b |-> cfg.BS * DirectB(cfg.direct[i], st.dlim[i], x), name |-> cfg.direct[i].name, soft |-> 0] >> ELSE <<>>])

\* strengthening term, scaled by BS: the negative-side function (plus its bias) when h < 0
AlphaPos(c, BS, hv) == BS * Poly(c.a, hv)
AlphaNeg(c, BS, hv) == (IF c.an = <<>> THEN 10 * BS * Poly(c.a, hv) ELSE BS * Poly(c.an, hv)) + (BS * c.bn100) \div 100

ExplicitRows(cfg, st, x) ==
    Flatten([i \in 1..NC(cfg) |->
        IF ~st.con[i] THEN <<>>
        ELSE LET c  == cfg.cons[i]
                 hv == HVal(c, st.lim[i], x)
                 g  == Grad(c, st.lim[i], x)
                 al == IF hv < 0 THEN AlphaNeg(c, cfg.BS, hv) ELSE AlphaPos(c, cfg.BS, hv)
             IN  << [w |-> VecMat(g, GOf(cfg, x)), b |-> -cfg.BS * Dot(g, FOf(cfg, x)) - al, name |-> c.name, soft |-> c.slack] >>])

\* discrete barrier (h(next) - h(now)) / step + alpha(h(now)) >= 0 for constraints linear in the state
\* (in mode "dt" the change of h does not scale with the step; BS makes the step's share of alpha an integer)
DiscreteRows(cfg, st, x, h, dtm) ==
    Flatten([i \in 1..NC(cfg) |->
        IF ~st.con[i] THEN <<>>
        ELSE LET c == cfg.cons[i]
                 g0 == Grad(c, st.lim[i], x)
                 g == IF cfg.mode = "ode" THEN Add(g0, Scale(h \div 2, VecMat(g0, cfg.A))) ELSE g0
             IN  << [w |-> VecMat(g, GOf(cfg, x)), b |-> -cfg.BS * Dot(g, FOf(cfg, x)) - (IF cfg.mode = "dt" THEN (AlphaPos(c, cfg.BS, HVal(c, st.lim[i], x)) * dtm) \div 1000 ELSE AlphaPos(c, cfg.BS, HVal(c, st.lim[i], x))),
                     name |-> c.name, soft |-> c.slack] >>])

\* implicit: trajectory points 1..N+1 (the first is x); the sensitivity of each point is the previous one plus
\* h times the closed-loop Jacobian, taken where the trajectory has arrived (controller memory included), times it
TrajOf(cfg, x, h, cs, n) == TLCEval(<<x>> \o BackupTraj(cfg, x, h, cs, n))
\* what the controller asks for, before the bounds
RawU(cfg, x, cs) == LET b == cfg.bk IN
    CASE b.t = "lin" -> Add(MatVec(b.K, x), b.c)
      [] b.t = "pat" -> b.seq[Min2(cs, Len(b.seq) - 1) + 1]
      [] b.t = "acc" -> Add(Scale(cs, b.c), MatVec(b.K, x))
      [] b.t = "gain" -> Add(Scale(cs, MatVec(b.K, x)), b.c)
\* its derivative by the state
DU(cfg, cs) == CASE cfg.bk.t = "gain" -> MatScale(cs, cfg.bk.K) [] OTHER -> cfg.bk.K
\* derivative of f(x) + g(x) u(x) by the state
JacOf(cfg, y, cs) ==
    LET n  == Len(y)
        j1 == IF cfg.bk.t = "pat" THEN cfg.A ELSE MatAdd(cfg.A, MatMul(GOf(cfg, y), DU(cfg, cs)))
        j2 == IF cfg.Q = <<>> THEN j1
              ELSE MatAdd(j1, [r \in 1..n |-> Add(MatVec(cfg.Q[r], y), VecMat(y, cfg.Q[r]))])
    IN  IF cfg.Bx = <<>> THEN j2
        ELSE LET u == RawU(cfg, y, cs) IN MatAdd(j2, [r \in 1..n |-> [i \in 1..n |-> Dot(cfg.Bx[i][r], u)]])
RECURSIVE SensFrom(_, _, _, _, _, _)
SensFrom(cfg, h, s, cs, tr, k) ==
    IF k = Len(tr) THEN <<s>>
    ELSE LET c1 == Backup(cfg, tr[k], cs).cs IN <<s>> \o SensFrom(cfg, h, MatAdd(s, MatScale(h, MatMul(JacOf(cfg, tr[k + 1], c1), s))), c1, tr, k + 1)
SensAll(cfg, h, cs, tr) == TLCEval(SensFrom(cfg, h, Ident(Len(cfg.A)), cs, tr, 1))
\* candidate points of a constraint's subsampling settings, in order
Prefix(s, np) == [i \in 1..Min2(Max2(s.nca, 0), np) |-> i]
RECURSIVE Strided(_, _, _)
Strided(i, np, k) == IF i > np THEN <<>> ELSE <<i>> \o Strided(i + k, np, k)
CheckPoints(s, np) == Prefix(s, np) \o Strided(Len(Prefix(s, np)) + 1, np, s.skip)
\* of these the n with least value
LeastSet(pts, vals, n) == {i \in ElemsOf(pts) : Cardinality({j \in ElemsOf(pts) : vals[j] < vals[i]}) < n}
Chosen(s, np, vals) ==
    LET pts == CheckPoints(s, np)
        base == IF s.least = 0 THEN ElemsOf(pts) ELSE LeastSet(pts, vals, s.least)
    IN  base \cup (IF s.kf THEN {1} ELSE {}) \cup (IF s.kl THEN {np} ELSE {})
\* several equally small values at the cut: the selection is not determined
TieAtCut(s, np, vals) == s.least # 0 /\ Cardinality(LeastSet(CheckPoints(s, np), vals, s.least)) > s.least
RECURSIVE SetToSeq1(_)
SetToSeq1(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o SetToSeq1(S \ {m})
ImplicitData(cfg, st, x, h, dtm) ==
    LET np == Steps(cfg, dtm) + 1
        tr == TrajOf(cfg, x, h, st.cs, np - 1)
        f0 == FOf(cfg, x)
        g0 == GOf(cfg, x)
        sn == SensAll(cfg, h, st.cs, tr)
        vs == TLCEval([i \in 1..NC(cfg) |-> [k \in 1..np |-> HVal(cfg.cons[i], st.lim[i], tr[k])]])
        row(i, k) == LET c == cfg.cons[i]
                         g == VecMat(Grad(c, st.lim[i], tr[k]), sn[k])
                     IN  [w |-> VecMat(g, g0), b |-> -cfg.BS * Dot(g, f0) - AlphaPos(c, cfg.BS, vs[i][k]), name |-> c.name, soft |-> c.slack]
        sel(i) == SetToSeq1(Chosen(cfg.cons[i].sub, np, vs[i]))
        rows == Flatten([i \in 1..NC(cfg) |-> IF st.con[i] THEN LET q == sel(i) IN [k \in 1..Len(q) |-> row(i, q[k])] ELSE <<>>])
    IN  [rows |-> rows, tie |-> \E i \in 1..NC(cfg) : st.con[i] /\ TieAtCut(cfg.cons[i].sub, np, vs[i])]

HardRows(rows) == SelectSeq(rows, LAMBDA r : r.soft = 0)
\* soft rows, highest priority first
RECURSIVE SoftRows(_, _)
SoftRows(rows, p) == IF p = 0 THEN <<>> ELSE SelectSeq(rows, LAMBDA r : r.soft = p) \o SoftRows(rows, p - 1)
HasSoft(rows) == \E i \in 1..Len(rows) : rows[i].soft # 0
MaxPrio == 9

\* distance of the optimum from d against epsilon: "yes", "no" or "near" (no verdict); eps in 1/10000
Far(cfg, p, d) ==
    LET q == [i \in 1..Len(d) |-> IF Abs(p.n[i] - p.d * d[i]) \div p.d >= 200 THEN 20000      \* far enough (epsilon is at most a few units)
                                 ELSE (Abs(p.n[i] - p.d * d[i]) * 100) \div p.d]      \* 1/100 units, rounded down
        s == Dot(q, q)
        e == cfg.eps \div 100
    IN  IF \A i \in 1..Len(d) : p.n[i] = p.d * d[i] THEN "no"
        ELSE IF s >= (e + 3) * (e + 3) THEN "yes"
        ELSE IF e >= 3 /\ s <= (e - 3) * (e - 3) THEN "no" ELSE "near"

OptRows(cfg, st, x, h, dtm) ==
    BoundRows(cfg) \o
    (CASE cfg.kind = "ea" -> ExplicitRows(cfg, st, x)
       [] cfg.kind = "da" -> DiscreteRows(cfg, st, x, h, dtm)
       [] cfg.kind = "ia" -> ImplicitData(cfg, st, x, h, dtm).rows) \o DirectRows(cfg, st, x)
ClipPoint(cfg, p) == [n |-> [i \in 1..Len(p.n) |-> Clip1(p.n[i], IF cfg.low = <<>> THEN <<>> ELSE <<p.d * cfg.low[i]>>,
                                                          IF cfg.high = <<>> THEN <<>> ELSE <<p.d * cfg.high[i]>>)], d |-> p.d]
OptStep(cfg, st, x, h, dtm, d) ==
    LET rows == TLCEval(OptRows(cfg, st, x, h, dtm))
        tie  == cfg.kind = "ia" /\ ImplicitData(cfg, st, x, h, dtm).tie
        soft == HasSoft(rows)
        sol  == IF soft THEN SolveSoft(cfg.BS, HardRows(rows), SoftRows(rows, MaxPrio), d)
                ELSE Solve(cfg.BS, rows, d, Max2(1, cfg.BS \div 20))
        far  == Far(cfg, sol.p, d)
    IN  IF tie \/ sol.status = "thin" THEN [st |-> st, out |-> PointOf(d), status |-> "skip", res |-> <<>>]
        ELSE IF sol.status = "inf"
             THEN IF cfg.exc THEN [st |-> st, out |-> PointOf(d), status |-> "raise", res |-> <<>>]
                  ELSE IF cfg.kind = "da" THEN [st |-> st, out |-> PointOf(Clip(cfg, d)), status |-> "fail", res |-> <<>>]
                  ELSE [st |-> [st EXCEPT !.iv = FALSE], out |-> IntPoint(Clip(cfg, d)), status |-> "warn", res |-> <<>>]
        ELSE [st |-> [st EXCEPT !.iv = (far = "yes")], out |-> ClipPoint(cfg, sol.p), status |-> IF far = "near" THEN "near" ELSE "ok",
              res |-> IF soft THEN <<>> ELSE <<[expl |-> sol.expl, binding |-> sol.binding, moved |-> sol.moved]>>]

----------------------------------------------------------------------------
(* The module *)
InitState(cfg) == [en |-> TRUE, iv |-> FALSE, el |-> 0, cs |-> cfg.bk.cs0,
                   lim |-> [i \in 1..NC(cfg) |-> cfg.cons[i].lim], con |-> [i \in 1..NC(cfg) |-> cfg.cons[i].en],
                   dlim |-> [i \in 1..Len(cfg.direct) |-> cfg.direct[i].b], dcon |-> [i \in 1..Len(cfg.direct) |-> cfg.direct[i].en],
                   vals |-> <<>>, stale |-> FALSE]

ResetState(cfg, st) == [InitState(cfg) EXCEPT !.lim = st.lim, !.con = st.con, !.dlim = st.dlim, !.dcon = st.dcon]

IsSwitch(cfg) == cfg.kind \in {"es", "is"}

\* one filtering call: new state, output point, status
Filter(cfg, st, x, h, dtm, d) ==
    IF ~st.en THEN [st |-> st, out |-> PointOf(d), status |-> "off", res |-> <<>>]
    ELSE LET s1 == [st EXCEPT !.vals = RawVals(cfg, st, x), !.stale = TRUE]
         IN  IF IsSwitch(cfg) THEN SwitchStep(cfg, s1, x, h, dtm, d) ELSE OptStep(cfg, s1, x, h, dtm, d)

\* state change of a call that is not filtering
Other(cfg, st, op) ==
    CASE op.op = "reset"  -> ResetState(cfg, st)
      [] op.op = "enable" -> [st EXCEPT !.en = op.v]
      [] op.op = "lim"    -> [st EXCEPT !.lim[op.i] = op.v]
      [] op.op = "con"    -> [st EXCEPT !.con[op.i] = op.v]
      [] op.op = "dlim"   -> [st EXCEPT !.dlim[op.i] = op.v]
      [] op.op = "dcon"   -> [st EXCEPT !.dcon[op.i] = op.v]
      [] op.op = "update" -> [st EXCEPT !.vals = RawVals(cfg, st, op.x), !.stale = FALSE]
      [] op.op = "info"   -> st
=============================================================================
