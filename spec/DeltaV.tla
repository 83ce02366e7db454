------------------------------- MODULE DeltaV -------------------------------
(***************************************************************************)
(* The delta-v limit switching module.  Numbers are fixed point with unit  *)
(* 1/S and configurations are chosen so that all arithmetic is exact.      *)
(* c: [n2 (2n), n3 (3n^2 * 4), nh (n * 4 / 2), im (S-free: 2/m), dt2       *)
(*     (2 dt), K1, K2 (3x6, in halves), steps, lim2 (limit, unit 1/(2S))]    *)

(* state: [en, lat, ei]   x: 8-vector                                      *)
(***************************************************************************)
EXTENDS LinAlg
S == 4096
\* exact division; Assert keeps the model honest
Ex(a, k) == IF Assert(a % k = 0, <<"inexact", a, k>>) THEN a \div k ELSE 0
\* Clohessy-Wiltshire derivative of the six mechanical components plus sun and delta-v, under control u
Deriv(c, x, u) ==
    << x[4], x[5], x[6],
       Ex(c.n3 * x[1], 4) + c.n2 * x[5] + Ex(c.im * u[1], 2),
       -c.n2 * x[4] + Ex(c.im * u[2], 2),
       -Ex(c.n3 * x[3], 12) + Ex(c.im * u[3], 2),
       0,
       Ex(c.im * (Abs(u[1]) + Abs(u[2]) + Abs(u[3])), 2) >>
Move(c, x, u) == LET f == Deriv(c, x, u) IN TLCEval([i \in 1..8 |-> x[i] + Ex(c.dt2 * f[i], 2)])
Err(c, x) == << 0, 0, 0, x[4] - Ex(c.nh * x[2], 4), x[5] + c.n2 * x[1], 0 >>
Lim1(v) == Max2(-S, Min2(S, v))
BackupU(c, x, ei) == LET e == Err(c, x) IN TLCEval([j \in 1..3 |-> Lim1(-Ex(Dot(c.K1[j], e), 2) - Ex(Dot(c.K2[j], ei), 2))])
BackupEi(c, x, ei) == LET e == Err(c, x) IN TLCEval([i \in 1..6 |-> ei[i] + Ex(c.dt2 * e[i], 2)])
Over(c, x) == 2 * x[8] > c.lim2          \* limit in half units, so that it can lie between lattice values
\* does delta-v exceed the limit somewhere in the configured number of backup steps after x?
RECURSIVE Exceeds(_, _, _, _)
Exceeds(c, x, ei, k) ==
    IF k = 0 THEN FALSE
    ELSE LET y == Move(c, x, BackupU(c, x, ei))
         IN  Over(c, y) \/ Exceeds(c, y, BackupEi(c, x, ei), k - 1)
Trips(c, s, x, d) == LET y == Move(c, x, d) IN Over(c, y) \/ Exceeds(c, y, s.ei, c.steps)
InitD == [en |-> TRUE, lat |-> FALSE, ei |-> <<0, 0, 0, 0, 0, 0>>]
FilterD(c, s, x, d) ==
    IF ~s.en THEN [st |-> s, out |-> d]
    ELSE IF s.lat \/ Trips(c, s, x, d)
         THEN [st |-> [s EXCEPT !.lat = TRUE, !.ei = BackupEi(c, x, s.ei)], out |-> BackupU(c, x, s.ei)]
         ELSE [st |-> s, out |-> d]
OtherD(s, op) == CASE op.op = "reset" -> InitD
                   [] op.op = "enable" -> [s EXCEPT !.en = op.v]
                   [] op.op = "info" -> s
=============================================================================
