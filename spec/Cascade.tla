------------------------------- MODULE Cascade -------------------------------
(***************************************************************************)
(* A cascade of modules: the desired control passes through the stages in  *)
(* list order, each stage filtering the previous output for the same state *)
(* and step; the result is limited to the cascade's own bounds.  The       *)
(* cascade reports intervention iff some stage reports it on that call.    *)
(* A cascade configuration is [stages, low, high]; its state is            *)
(* [en, iv, ss] with ss the states of the stages (RtaCore).                *)
(***************************************************************************)
EXTENDS RtaCore

Whole(p) == \A i \in 1..Len(p.n) : p.n[i] % p.d = 0
Ints(p) == TLCEval([i \in 1..Len(p.n) |-> p.n[i] \div p.d])

\* a stage is a module or itself a cascade
Nested(c) == "stages" \in DOMAIN c
RECURSIVE CInit(_)
CInit(cc) == IF ~Nested(cc) THEN InitState(cc)
             ELSE [en |-> TRUE, iv |-> FALSE, ss |-> [i \in 1..Len(cc.stages) |-> CInit(cc.stages[i])]]
\* every stage reset, settings kept; the enable switch of the stages returns to on
RECURSIVE CReset(_, _)
CReset(cc, s) == IF ~Nested(cc) THEN ResetState(cc, s)
                 ELSE [en |-> TRUE, iv |-> FALSE, ss |-> [i \in 1..Len(cc.stages) |-> CReset(cc.stages[i], s.ss[i])]]

\* results in one shape: out (integer vector), ok (inside the integer fragment), off (disabled), stale (see below)
RECURSIVE Fold(_, _, _, _, _, _, _)
RECURSIVE CFilter(_, _, _, _, _, _)
StageFilter(c, s, x, h, dtm, u) ==
    IF Nested(c) THEN CFilter(c, s, x, h, dtm, u)
    ELSE LET r == Filter(c, s, x, h, dtm, u)
             good == r.status \in {"ok", "warn", "off"} /\ Whole(r.out)
         IN  [st |-> r.st, out |-> IF good THEN Ints(r.out) ELSE u, ok |-> good, off |-> r.status = "off", stale |-> FALSE, outs |-> <<>>]
Fold(cc, ss, i, x, h, dtm, u) ==
    IF i > Len(cc.stages) THEN [ss |-> ss, u |-> u, outs |-> <<>>, ok |-> TRUE, stale |-> FALSE, ivs |-> {}]
    ELSE LET r == StageFilter(cc.stages[i], ss[i], x, h, dtm, u)
             q == Fold(cc, [ss EXCEPT ![i] = r.st], i + 1, x, h, dtm, r.out)
         IN  [ss |-> q.ss, u |-> q.u, outs |-> <<r.out>> \o q.outs, ok |-> r.ok /\ q.ok,
              \* a disabled stage passes through; the flag it keeps from an earlier call is not a report on this one
              stale |-> (r.off /\ r.st.iv) \/ r.stale \/ q.stale,
              ivs |-> (IF ~r.off /\ r.st.iv THEN {i} ELSE {}) \cup q.ivs]
CFilter(cc, s, x, h, dtm, d) ==
    IF ~s.en THEN [st |-> s, out |-> d, ok |-> TRUE, off |-> TRUE, stale |-> FALSE, outs |-> <<>>]
    ELSE LET q == Fold(cc, s.ss, 1, x, h, dtm, d)
         IN  [st |-> [s EXCEPT !.iv = q.ivs # {}, !.ss = q.ss], out |-> Clip(cc, q.u), ok |-> q.ok, off |-> FALSE, stale |-> q.stale, outs |-> q.outs]

RECURSIVE COther(_, _, _)
COther(cc, s, op) ==
    IF ~Nested(cc) THEN Other(cc, s, op)
    ELSE CASE op.op = "reset"   -> CReset(cc, s)
           [] op.op = "enable"  -> [s EXCEPT !.en = op.v]
           [] op.op = "stage"   -> [s EXCEPT !.ss[op.k] = COther(cc.stages[op.k], s.ss[op.k], op.sub)]
           [] op.op = "info"    -> s
=============================================================================
