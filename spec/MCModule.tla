------------------------------ MODULE MCModule ------------------------------
(***************************************************************************)
(* Exhaustive exploration of module instances: every configuration in      *)
(* CONFIGS, every call of its alphabet in every reachable module state.    *)
(* Each transition is printed as one JSON line; the replay driver turns    *)
(* the printed graph into call sequences for the real classes.             *)
(* Telemetry is left out of the state (it does not influence behaviour).   *)
(***************************************************************************)
EXTENDS RtaCore, Json, IOUtils
Raw == JsonDeserialize(IOEnv.RTA_CFGS)
Cfgs == TLCEval([i \in 1..Len(Raw) |-> Effective(Raw[i])])

VARIABLES ci, st
vars == <<ci, st>>
Strip(s) == [s EXCEPT !.vals = <<>>, !.stale = FALSE]

Key(s) == ToString(<<s.en, s.iv, s.el, s.cs, s.lim, s.con, s.dlim, s.dcon>>)

Init == /\ ci \in 1..Len(Cfgs)
        /\ st = Strip(InitState(Cfgs[ci]))
        /\ PrintT(ToJson(<<"I", ci, Key(st)>>))

\* ---- design properties, evaluated on every transition ----
WithinBounds(cfg, p) == \A i \in 1..Len(p.n) :
    /\ cfg.low = <<>> \/ p.n[i] >= p.d * cfg.low[i]
    /\ cfg.high = <<>> \/ p.n[i] <= p.d * cfg.high[i]
\* C01
BoundsOK(cfg, s, op, r) == (s.en /\ r.status \in {"ok", "warn", "near"}) => WithinBounds(cfg, r.out)
\* C02
OffOK(cfg, s, op, r) == ~s.en => (r.out = PointOf(op.d) /\ r.st = s)
\* C03/C04: an unlatched decision passes the limited desired control iff it is certified; flag says which
SwitchOK(cfg, s, op, r) ==
    (IsSwitch(cfg) /\ s.en /\ ~(s.iv /\ s.el < cfg.latch)) =>
        LET bad == Unsafe(cfg, s, op.x, op.h, op.dtm, Clip(cfg, op.d)) IN
        /\ r.st.iv = bad
        /\ r.out = PointOf(IF bad THEN Backup(cfg, op.x, s.cs).u ELSE Clip(cfg, op.d))
\* C06
LatchOK(cfg, s, op, r) ==
    (IsSwitch(cfg) /\ s.en /\ s.iv /\ s.el < cfg.latch) =>
        (r.st.iv /\ r.st.el = s.el + op.dtm /\ r.out = PointOf(Backup(cfg, op.x, s.cs).u))
\* C08
MemoryOK(cfg, s, op, r) ==
    r.st.cs = IF IsSwitch(cfg) /\ s.en /\ r.st.iv THEN Backup(cfg, op.x, s.cs).cs ELSE s.cs
\* C09/C14/C15: the optimum is feasible, and an admissible desired control is not touched
OptOK(cfg, s, op, r) ==
    (~IsSwitch(cfg) /\ s.en /\ r.status = "ok") =>
        LET rows == OptRows(cfg, s, op.x, op.h, op.dtm) IN
        /\ Feasible(cfg.BS, HardRows(rows), r.out)
        /\ Feasible(cfg.BS, rows, PointOf(op.d)) => (r.out = PointOf(op.d) /\ ~r.st.iv)
\* C10
InfOK(cfg, s, op, r) ==
    (~IsSwitch(cfg) /\ s.en /\ r.status \in {"warn", "raise"}) =>
        (r.status = IF cfg.exc THEN "raise" ELSE "warn")
\* C24: nothing but latch, memory and settings is carried over
HistOK(cfg, s, op, r) ==
    (s.en /\ (~IsSwitch(cfg) \/ (cfg.latch = 0 /\ cfg.bk.t = "lin"))) =>
        LET f == Filter(cfg, [s EXCEPT !.iv = FALSE, !.el = 0], op.x, op.h, op.dtm, op.d)
        IN  f.out = r.out /\ f.status = r.status /\ (r.status = "ok" => f.st.iv = r.st.iv)
\* C11: a disabled constraint has no influence (same decision with any limit)
DisabledOK(cfg, s, op, r) ==
    \A i \in 1..NC(cfg) : ~s.con[i] =>
        LET f == Filter(cfg, [s EXCEPT !.lim[i] = 0], op.x, op.h, op.dtm, op.d)
        IN  f.out = r.out /\ f.status = r.status
FilterOK(cfg, s, op, r) ==
    /\ Assert(BoundsOK(cfg, s, op, r), <<"design: bounds", cfg.name, s, op, r>>)
    /\ Assert(OffOK(cfg, s, op, r), <<"design: pass-through", cfg.name, s, op, r>>)
    /\ Assert(SwitchOK(cfg, s, op, r), <<"design: switching", cfg.name, s, op, r>>)
    /\ Assert(LatchOK(cfg, s, op, r), <<"design: latch", cfg.name, s, op, r>>)
    /\ Assert(MemoryOK(cfg, s, op, r), <<"design: memory", cfg.name, s, op, r>>)
    /\ Assert(OptOK(cfg, s, op, r), <<"design: optimum", cfg.name, s, op, r>>)
    /\ Assert(InfOK(cfg, s, op, r), <<"design: infeasible", cfg.name, s, op, r>>)
    /\ Assert(HistOK(cfg, s, op, r), <<"design: history", cfg.name, s, op, r>>)
    /\ Assert(DisabledOK(cfg, s, op, r), <<"design: disabled constraint", cfg.name, s, op, r>>)
\* C07
ResetOK(cfg, s, t) == Assert(t = [Strip(InitState(cfg)) EXCEPT !.lim = s.lim, !.con = s.con, !.dlim = s.dlim, !.dcon = s.dcon],
                             <<"design: reset", cfg.name, s, t>>)

Apply(cfg, s, op) ==
    IF op.op = "filter"
    THEN LET r == Filter(cfg, s, op.x, op.h, op.dtm, op.d)
         IN  IF FilterOK(cfg, s, op, [r EXCEPT !.st = Strip(@)]) THEN [st |-> Strip(r.st), v |-> r.status] ELSE [st |-> s, v |-> ""]
    ELSE LET t == Strip(Other(cfg, s, op))
         IN  IF op.op # "reset" \/ ResetOK(cfg, s, t) THEN [st |-> t, v |-> ""] ELSE [st |-> s, v |-> ""]

Next == \E k \in 1..Len(Cfgs[ci].ops) :
          LET a == Apply(Cfgs[ci], st, Cfgs[ci].ops[k])
          IN  /\ ci' = ci
              /\ st' = a.st
              /\ PrintT(ToJson(<<"E", ci, Key(st), k, Key(a.st), a.v>>))
Spec == Init /\ [][Next]_vars
TypeOK == /\ st.en \in BOOLEAN /\ st.iv \in BOOLEAN /\ st.el \in Nat
          /\ (~IsSwitch(Cfgs[ci]) => st.el = 0)
          /\ st.el < Cfgs[ci].latch + 100000
=============================================================================
