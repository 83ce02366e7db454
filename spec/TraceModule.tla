----------------------------- MODULE TraceModule -----------------------------
(***************************************************************************)
(* Conformance of recorded executions of the real module classes with      *)
(* RtaCore.  Every recorded trace is an initial state; each recorded event *)
(* is consumed by exactly one step, which takes the specification's step   *)
(* for the same call and compares everything the caller could observe.     *)
(* The verdict is total: a disagreement prints a FAIL line naming the      *)
(* clauses and ends that trace.                                            *)
(***************************************************************************)
EXTENDS RtaCore, Json, IOUtils
Data == JsonDeserialize(IOEnv.RTA_TRACES)
Cfgs == TLCEval([i \in 1..Len(Data.cfgs) |-> Effective(Data.cfgs[i])])
Traces == Data.traces
S == 10000

VARIABLES t, l, st, tele
vars == <<t, l, st, tele>>

EvSeq(k) == Traces[k].ev
CfgOf(k) == Cfgs[Traces[k].c]

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ st = InitState(CfgOf(t))
        /\ tele = [des |-> "none", act |-> "none", cause |-> "any"]

Close(cfg, p, fl, ce) == \A i \in 1..Len(p.n) :
    LET e == (p.n[i] * S) \div p.d IN Abs(fl[i] - e) <= cfg.tol /\ Abs(ce[i] - e) <= cfg.tol + 1
InBounds(cfg, fl, ce) == \A i \in 1..Len(fl) :
    (cfg.low = <<>> \/ fl[i] >= S * cfg.low[i]) /\ (cfg.high = <<>> \/ ce[i] <= S * cfg.high[i])

C(cond, name) == IF cond THEN {} ELSE {name}

\* the reported causes: bind at the optimum, explain it, no duplicates; none if nothing moved or nothing was solved
CauseOK(r, ev) ==
    IF ev.causes = <<"?">> \/ r.status \in {"off", "skip", "fail"} THEN TRUE
    ELSE LET s == ElemsOf(ev.causes) IN
         /\ Cardinality(s) = Len(ev.causes)
         /\ (r.status = "warn" => s = {})
         /\ (r.status \in {"ok", "near"} /\ r.res # <<>>) =>
               LET q == r.res[1] IN IF ~q.moved THEN s = {} ELSE s \subseteq q.binding /\ \E e \in q.expl : e \subseteq s

FilterFails(cfg, ev, r) ==
    LET okst == CASE r.status \in {"ok", "near", "off"} ->
                       \* an integrated prediction is only smooth up to rounding: the line search may complain at the optimum
                       IF cfg.kind = "da" /\ cfg.mode = "ode" /\ r.status # "off" THEN {"ok", "warn"} ELSE {"ok"}
                  [] r.status = "warn"  -> {"warn"}
                  [] r.status = "fail"  -> {"warn"}      \* discrete solver gave up: any control within the bounds
                  [] r.status = "raise" -> {"solver_error"}
                  [] r.status = "skip"  -> {"ok", "warn", "solver_error"}
        ran  == ev.status \in {"ok", "warn"}
    IN  C(ev.status \in okst, "status:" \o ev.status)
        \cup (IF ~ran \/ r.status \in {"skip", "fail"} THEN {} ELSE C(Close(cfg, r.out, ev.fl, ev.ce), "output"))
        \cup (IF ~ran \/ ~st.en THEN {} ELSE C(InBounds(cfg, ev.fl, ev.ce), "bounds"))
        \cup (IF ~ran \/ st.en THEN {} ELSE C(ev.outx = ev.dx, "pass-through"))
        \cup (IF ~ran \/ r.status \in {"near", "skip", "fail"} THEN {} ELSE C(ev.iv = r.st.iv, "intervening"))
        \cup C(ev.pure, "caller arrays")
        \cup (IF ~ran \/ ~cfg.chkcause THEN {} ELSE C(CauseOK(r, ev), "causes"))

InfoFails(cfg, ev) ==
    C(ev.en = st.en, "info.enable")
    \cup C(ev.iv = st.iv, "info.intervening")
    \cup C(ev.des = tele.des, "info.control_desired")
    \cup (IF tele.act = "?" THEN {} ELSE C(ev.act = tele.act, "info.control_actual"))
    \cup C(ev.key = (IF st.stale THEN "constraints_at_last_state" ELSE "constraints"), "info.key")
    \cup (IF ~cfg.chkvals THEN {}
          ELSE C(/\ Len(ev.vals) = Len(st.vals)
                 /\ \A i \in 1..Len(st.vals) : /\ ev.vals[i].k = cfg.cons[i].name
                                               /\ Abs(ev.vals[i].v - S * st.vals[i]) <= 3, "info.values"))

\* a check may restrict itself to some clauses (cfg.only); the others are then not judged and the flag is taken over
Judged(cfg, f) == IF cfg.only = <<>> THEN f ELSE f \cap ElemsOf(cfg.only)

Fail(clauses) == PrintT(ToJson(<<"FAIL", t, l, SetToSeqS(clauses)>>))

Step ==
    /\ l <= Len(EvSeq(t))
    /\ LET cfg == CfgOf(t)
           ev  == EvSeq(t)[l]
       IN  IF ev.op = "filter"
           THEN LET r == Filter(cfg, st, ev.x, ev.h, ev.dtm, ev.d)
                    f == Judged(cfg, FilterFails(cfg, ev, r))
                    raised == ev.status = "solver_error"
                IN  IF f # {} THEN Fail(f) /\ l' = Len(EvSeq(t)) + 1 /\ UNCHANGED <<t, st, tele>>
                    ELSE /\ l' = l + 1
                         /\ t' = t
                         /\ st' = IF r.status \in {"near", "skip", "fail"} \/ cfg.only # <<>> THEN [r.st EXCEPT !.iv = ev.iv] ELSE r.st
                         /\ tele' = [tele EXCEPT !.des = ev.dx, !.act = IF raised THEN "?" ELSE ev.outx]
           ELSE IF ev.op = "construct"
           THEN LET f == C((ev.status = "ok") = Constructible(cfg), "construct:" \o ev.status)
                IN  IF f # {} THEN Fail(f) /\ l' = Len(EvSeq(t)) + 1 /\ UNCHANGED <<t, st, tele>>
                    ELSE l' = l + 1 /\ UNCHANGED <<t, st, tele>>
           ELSE LET f == CASE ev.op = "info" -> Judged(cfg, InfoFails(cfg, ev))
                           \* a reset module knows as little about causes as a fresh one
                           [] ev.op = "reset" -> C(ev.status = "ok", "reset.status:" \o ev.status) \cup Judged(cfg, C(ev.causes = EvSeq(t)[1].causes, "causes after reset"))
                           [] OTHER -> C(ev.status = "ok", ev.op \o ".status:" \o ev.status)
                IN  IF f # {} THEN Fail(f) /\ l' = Len(EvSeq(t)) + 1 /\ UNCHANGED <<t, st, tele>>
                    ELSE /\ l' = l + 1
                         /\ t' = t
                         /\ st' = Other(cfg, st, ev)
                         /\ tele' = IF ev.op = "reset" THEN [tele EXCEPT !.des = "none", !.act = "none"] ELSE tele
Spec == Init /\ [][Step]_vars
=============================================================================
