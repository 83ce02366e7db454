------------------------------- MODULE MCLoop -------------------------------
(***************************************************************************)
(* All closed-loop behaviours of each configuration: start anywhere in     *)
(* cfg.starts that is certified, then any desired control in any order;    *)
(* "start" begins a new episode (reset).  Invariant: every state reached   *)
(* satisfies every enabled constraint, and stays certified.                *)
(***************************************************************************)
EXTENDS Loop, Json, IOUtils
Cfgs == JsonDeserialize(IOEnv.RTA_CFGS)
VARIABLES ci, x, st
vars == <<ci, x, st>>
Strip(s) == [s EXCEPT !.vals = <<>>, !.stale = FALSE]
Key(y, s) == ToString(<<y, s.iv, s.el, s.cs>>)
H(cfg) == cfg.h
Dtm(cfg) == cfg.dtm
S0(cfg) == Strip(InitState(cfg))
StartOK(cfg, y) == Recoverable(cfg, S0(cfg), y, H(cfg), Dtm(cfg))
Init == /\ ci \in 1..Len(Cfgs)
        /\ x = Cfgs[ci].starts[1]
        /\ st = S0(Cfgs[ci])
        /\ Assert(StartOK(Cfgs[ci], x), <<"first start state not certified", Cfgs[ci].name>>)
        /\ PrintT(ToJson(<<"I", ci, Key(x, st)>>))
Apply(cfg, op) ==
    IF op.op = "start" THEN [x |-> op.x, st |-> S0(cfg)]
    ELSE LET r == Filter(cfg, st, x, H(cfg), Dtm(cfg), op.d)
         IN  [x |-> Pred(cfg, x, H(cfg), r.out.n), st |-> Strip(r.st)]
Next == \E k \in 1..Len(Cfgs[ci].ops) :
          LET cfg == Cfgs[ci]
              op == cfg.ops[k]
          IN  /\ op.op = "start" => StartOK(cfg, op.x)
              /\ LET a == Apply(cfg, op) IN
                   /\ \A i \in 1..Len(a.x) : Abs(a.x[i]) <= cfg.range          \* the explored region
                   /\ ci' = ci /\ x' = a.x /\ st' = a.st
                   /\ PrintT(ToJson(<<"E", ci, Key(x, st), k, Key(a.x, a.st), IF a.st.iv THEN "backup" ELSE "pass">>))
Spec == Init /\ [][Next]_vars
\* assumption of C05, checked for every state the loop can be in
Assumption == Renews(Cfgs[ci], st, x, H(Cfgs[ci]), Dtm(Cfgs[ci]), st.cs)
Safe == SafeAt(Cfgs[ci], st, x)
Inductive == Recoverable(Cfgs[ci], st, x, H(Cfgs[ci]), Dtm(Cfgs[ci]))
=============================================================================
