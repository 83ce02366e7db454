--------------------------------- MODULE Qp ---------------------------------
(***************************************************************************)
(* The quadratic program of the optimization filters, solved exactly:      *)
(*    minimise |u - d|^2   subject to   w . u >= b / BS   for every row    *)
(* with integer data, up to three controls.  The optimum of a convex QP is *)
(* the unique feasible point with a KKT certificate, so it is found by     *)
(* enumerating active sets: the empty one, every row, pair, triple of rows.*)
(* A row is a record [w |-> Seq(Int), b |-> Int, name |-> STRING].         *)
(* A point is [n |-> Seq(Int), d |-> positive Int] meaning n/d.            *)
(***************************************************************************)
EXTENDS LinAlg

PointOf(d) == [n |-> d, d |-> 1]

RowHolds(BS, r, p) == BS * Dot(r.w, p.n) >= r.b * p.d
Feasible(BS, rows, p) == \A i \in 1..Len(rows) : RowHolds(BS, rows[i], p)
Binds(BS, r, p) == BS * Dot(r.w, p.n) = r.b * p.d

IsZeroRow(r) == \A i \in 1..Len(r.w) : r.w[i] = 0

\* the projection of d on the boundary of r; only a candidate if d violates r (multiplier > 0)
SingleOK(BS, r, d) == ~IsZeroRow(r) /\ r.b - BS * Dot(r.w, d) > 0
Single(BS, r, d) == LET ww == Dot(r.w, r.w)
                        g  == r.b - BS * Dot(r.w, d)
                    IN  [n |-> [i \in 1..Len(d) |-> d[i] * BS * ww + r.w[i] * g], d |-> BS * ww]

Det(r, s) == r.w[1] * s.w[2] - r.w[2] * s.w[1]
Vertex(BS, r, s) ==
    LET dt == Det(r, s)
        sg == Sgn(dt)
    IN  [n |-> << sg * (r.b * s.w[2] - s.b * r.w[2]), sg * (r.w[1] * s.b - s.w[1] * r.b) >>, d |-> BS * Abs(dt)]
\* both multipliers of u - d = l1 w1 + l2 w2 are positive
VertexOK(BS, r, s, d) ==
    /\ Det(r, s) # 0
    /\ LET p  == Vertex(BS, r, s)
           rx == p.n[1] - p.d * d[1]
           ry == p.n[2] - p.d * d[2]
           sg == Sgn(Det(r, s))
       IN  /\ sg * (rx * s.w[2] - ry * s.w[1]) > 0
           /\ sg * (r.w[1] * ry - r.w[2] * rx) > 0

\* Three controls: pairs and triples of independent rows through their Gram matrix G = W W', G l = b - BS W d,
\* u = d + W' l / BS; a certificate when every l is positive (l is computed times det G).
Gram3(BS, rows, d, one) ==
    LET ac == {i \in 1..Len(rows) : ~IsZeroRow(rows[i])}
        G  == TLCEval([i \in ac |-> [j \in ac |-> Dot(rows[i].w, rows[j].w)]])
        g  == TLCEval([i \in ac |-> rows[i].b - BS * Dot(rows[i].w, d)])
        up == {i \in ac : g[i] > 0}      \* rows that d violates; a certificate needs one of them
        two(i, j) == [det |-> G[i][i] * G[j][j] - G[i][j] * G[i][j], l |-> <<g[i] * G[j][j] - g[j] * G[i][j], G[i][i] * g[j] - G[i][j] * g[i]>>]
        tri(i, j, k) ==
            LET p1 == G[j][j] * G[k][k] - G[j][k] * G[j][k]
                p2 == G[i][k] * G[j][k] - G[i][j] * G[k][k]
                p3 == G[i][j] * G[j][k] - G[i][k] * G[j][j]
                p4 == G[i][i] * G[k][k] - G[i][k] * G[i][k]
                p5 == G[i][j] * G[i][k] - G[i][i] * G[j][k]
                p6 == G[i][i] * G[j][j] - G[i][j] * G[i][j]
            IN  [det |-> G[i][i] * p1 + G[i][j] * p2 + G[i][k] * p3,
                 l |-> <<p1 * g[i] + p2 * g[j] + p3 * g[k], p2 * g[i] + p4 * g[j] + p5 * g[k], p3 * g[i] + p5 * g[j] + p6 * g[k]>>]
        good(s) == s.det > 0 /\ \A i \in 1..Len(s.l) : s.l[i] > 0
        point(q, s) == [n |-> TLCEval([i \in 1..3 |-> BS * s.det * d[i] + Sum([k \in 1..Len(q) |-> rows[q[k]].w[i] * s.l[k]])]), d |-> BS * s.det]
        cert(q, s) == [p |-> point(q, s), act |-> {rows[q[k]].name : k \in 1..Len(q)}]
        pairs(S) == {e \in {cert(q, two(q[1], q[2])) : q \in {q \in (S \cap up) \X S : q[1] # q[2] /\ good(two(q[1], q[2]))}} : Feasible(BS, rows, e.p)}
        trips(S) == {e \in {cert(q, tri(q[1], q[2], q[3])) : q \in {q \in (S \cap up) \X S \X S : q[2] < q[3] /\ q[1] # q[2] /\ q[1] # q[3] /\ good(tri(q[1], q[2], q[3]))}} : Feasible(BS, rows, e.p)}
        first == IF one # {} THEN one ELSE LET c == pairs(ac) IN IF c # {} THEN c ELSE trips(ac)
    IN  IF first = {} THEN {}
        ELSE LET p == (CHOOSE e \in first : TRUE).p
                 B == {i \in ac : Binds(BS, rows[i], p)}      \* every certificate of the optimum uses rows that bind there
             IN  first \cup pairs(B) \cup trips(B)

\* all (point, explaining active set) pairs with a KKT certificate
Certified(BS, rows, d) ==
    LET N == 1..Len(rows)
        zero == IF Feasible(BS, rows, PointOf(d)) THEN {[p |-> PointOf(d), act |-> {}]} ELSE {}
        one  == {[p |-> Single(BS, rows[i], d), act |-> {rows[i].name}] :
                    i \in {i \in N : SingleOK(BS, rows[i], d) /\ Feasible(BS, rows, Single(BS, rows[i], d))}}
        two  == IF Len(d) = 1 THEN {}
                ELSE IF Len(d) = 3 THEN Gram3(BS, rows, d, one)
                ELSE {[p |-> Vertex(BS, rows[q[1]], rows[q[2]]), act |-> {rows[q[1]].name, rows[q[2]].name}] :
                    q \in {q \in N \X N : q[1] < q[2] /\ VertexOK(BS, rows[q[1]], rows[q[2]], d)
                                          /\ Feasible(BS, rows, Vertex(BS, rows[q[1]], rows[q[2]]))}}
    IN  IF zero # {} THEN zero ELSE IF one # {} THEN one \cup two ELSE two

Relax(rows, k) == [i \in 1..Len(rows) |-> IF IsZeroRow(rows[i]) THEN rows[i] ELSE [rows[i] EXCEPT !.b = @ + k]]

\* status "ok" | "inf" | "thin" (feasible set without interior, or infeasible by a hair: no verdict)
Solve(BS, rows, d, margin) ==
    LET c == Certified(BS, rows, d)
    IN  IF c # {}
        THEN LET p == (CHOOSE e \in c : TRUE).p
             IN  [status  |-> IF Certified(BS, Relax(rows, margin), d) # {} THEN "ok" ELSE "thin",
                  p       |-> p,
                  moved   |-> \A e \in c : e.act # {},
                  expl    |-> {e.act : e \in c},
                  binding |-> {rows[i].name : i \in {i \in 1..Len(rows) : ~IsZeroRow(rows[i]) /\ Binds(BS, rows[i], p)}}]
        ELSE [status  |-> IF Certified(BS, Relax(rows, -margin), d) = {} THEN "inf" ELSE "thin",
              p       |-> PointOf(d), moved |-> FALSE, expl |-> {{}}, binding |-> {}]

(***************************************************************************)
(* Hard rows plus soft rows in descending priority, every row about one    *)
(* control only: the admissible values of each control are an interval     *)
(* [lo, hi] (rationals, <<>> = no bound); each soft row is met if the      *)
(* interval allows it and otherwise given up as little as possible.        *)
(***************************************************************************)
RLeq(p, q) == p.n * q.d <= q.n * p.d
RLess(p, q) == p.n * q.d < q.n * p.d
HasB(v) == v # <<>>
AxisOf(r) == CHOOSE i \in 1..Len(r.w) : r.w[i] # 0
Separable(rows) == \A k \in 1..Len(rows) : Cardinality({i \in 1..Len(rows[k].w) : rows[k].w[i] # 0}) <= 1
\* interval: [lo |-> <<>> or <<[n,d]>>, hi |-> ...]
Cut(BS, iv, r) ==
    LET k == r.w[AxisOf(r)]
        v == [n |-> Sgn(k) * r.b, d |-> BS * Abs(k)]
    IN  IF k > 0 THEN [iv EXCEPT !.lo = IF HasB(@) /\ RLeq(v, @[1]) THEN @ ELSE <<v>>]
        ELSE [iv EXCEPT !.hi = IF HasB(@) /\ RLeq(@[1], v) THEN @ ELSE <<v>>]
NonEmpty(iv) == ~HasB(iv.lo) \/ ~HasB(iv.hi) \/ RLeq(iv.lo[1], iv.hi[1])
RECURSIVE CutAll(_, _, _)
CutAll(BS, iv, rows) == IF rows = <<>> THEN iv ELSE CutAll(BS, Cut(BS, iv, Head(rows)), Tail(rows))
RECURSIVE Soften(_, _, _)
Soften(BS, iv, soft) ==
    IF soft = <<>> THEN iv
    ELSE LET r == Head(soft)
             c == Cut(BS, iv, r)
         IN  IF NonEmpty(c) THEN Soften(BS, c, Tail(soft))
             ELSE LET e == IF r.w[AxisOf(r)] > 0 THEN iv.hi ELSE iv.lo IN Soften(BS, [lo |-> e, hi |-> e], Tail(soft))
Full == [lo |-> <<>>, hi |-> <<>>]
RECURSIVE ProdD(_)
ProdD(u) == IF u = <<>> THEN 1 ELSE Head(u).d * ProdD(Tail(u))
SolveSoft(BS, hard, soft, d) ==
    LET ax(rows, j) == SelectSeq(rows, LAMBDA r : ~IsZeroRow(r) /\ AxisOf(r) = j)
        h0 == TLCEval([j \in 1..Len(d) |-> CutAll(BS, Full, ax(hard, j))])
        zi == \E i \in 1..Len(hard) : IsZeroRow(hard[i]) /\ hard[i].b > 0
        val(j) == LET iv == Soften(BS, h0[j], ax(soft, j))
                      x  == [n |-> d[j], d |-> 1]
                  IN  IF HasB(iv.lo) /\ RLess(x, iv.lo[1]) THEN iv.lo[1]
                      ELSE IF HasB(iv.hi) /\ RLess(iv.hi[1], x) THEN iv.hi[1] ELSE x
        thin(j) == HasB(h0[j].lo) /\ HasB(h0[j].hi) /\ RLeq(h0[j].hi[1], h0[j].lo[1])
    IN  IF ~Assert(Separable(hard) /\ Separable(soft), "softened rows must be about one control each") THEN [status |-> "inf", p |-> PointOf(d)]
        ELSE IF zi \/ \E j \in 1..Len(d) : ~NonEmpty(h0[j]) THEN [status |-> "inf", p |-> PointOf(d)]
        ELSE LET u == TLCEval([j \in 1..Len(d) |-> val(j)])
                 D == ProdD(u)
             IN  [status |-> IF \E j \in 1..Len(d) : thin(j) THEN "thin" ELSE "ok",
                  p |-> [n |-> [j \in 1..Len(d) |-> u[j].n * (D \div u[j].d)], d |-> D]]
=============================================================================
