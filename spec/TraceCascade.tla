----------------------------- MODULE TraceCascade -----------------------------
(* Recorded executions of real cascades against Cascade; total verdict as in TraceModule. *)
EXTENDS Cascade, Json, IOUtils
Data == JsonDeserialize(IOEnv.RTA_TRACES)
Cfgs == TLCEval(Data.cfgs)
Traces == Data.traces
S == 10000
VARIABLES t, l, st, tele
vars == <<t, l, st, tele>>
EvSeq(k) == Traces[k].ev
CfgOf(k) == Cfgs[Traces[k].c]
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ st = CInit(CfgOf(t)) /\ tele = [des |-> "none", act |-> "none"]
C(cond, name) == IF cond THEN {} ELSE {name}
Fail(clauses) == PrintT(ToJson(<<"FAIL", t, l, SetToSeqS(clauses)>>))
Near(u, fl, ce, tol) == \A i \in 1..Len(u) : Abs(fl[i] - S * u[i]) <= tol /\ Abs(ce[i] - S * u[i]) <= tol
FilterFails(cc, ev, r) ==
    C(ev.status \in {"ok", "warn"}, "status:" \o ev.status)
    \cup (IF ev.status \notin {"ok", "warn"} THEN {}
          ELSE C(Near(r.out, ev.fl, ev.ce, cc.tol), "output")
               \* what each stage says it was given and returned
               \cup (IF ~st.en THEN {}
                     ELSE UNION {C(Near(r.outs[i], ev.sact[i], ev.sact[i], cc.tol), "stage output") : i \in 1..Len(r.outs)}
                          \cup UNION {C(Near(IF i = 1 THEN ev.d ELSE r.outs[i - 1], ev.sdes[i], ev.sdes[i], cc.tol), "stage input") : i \in 1..Len(r.outs)})
               \cup (IF st.en THEN C(\A i \in 1..Len(ev.fl) : (cc.low = <<>> \/ ev.fl[i] >= S * cc.low[i]) /\ (cc.high = <<>> \/ ev.ce[i] <= S * cc.high[i]), "bounds")
                     ELSE C(ev.outx = ev.dx, "pass-through"))
               \cup (IF r.stale THEN {} ELSE C(ev.iv = r.st.iv, "intervening"))
               \cup C(ev.pure, "caller arrays"))
InfoFails(ev) == C(ev.status = "ok", "info.status:" \o ev.status) \cup C(ev.en = st.en, "info.enable") \cup C(ev.iv = st.iv, "info.intervening")
                 \cup C(ev.des = tele.des, "info.control_desired") \cup C(ev.act = tele.act, "info.control_actual")
Step ==
    /\ l <= Len(EvSeq(t))
    /\ LET cc == CfgOf(t)
           ev == EvSeq(t)[l]
           r  == IF ev.op = "filter" THEN CFilter(cc, st, ev.x, ev.h, ev.dtm, ev.d) ELSE [st |-> st, out |-> <<>>, ok |-> TRUE, off |-> FALSE, stale |-> FALSE, outs |-> <<>>]
           g  == CASE ev.op = "filter" -> FilterFails(cc, ev, r)
                   [] ev.op = "info" -> InfoFails(ev)
                   [] OTHER -> C(ev.status = "ok", ev.op \o ".status:" \o ev.status)
           \* a check may restrict itself to some clauses
           f  == IF cc.only = <<>> THEN g ELSE g \cap {cc.only[i] : i \in 1..Len(cc.only)}
       IN  IF f # {} THEN Fail(f) /\ l' = Len(EvSeq(t)) + 1 /\ UNCHANGED <<t, st, tele>>
           ELSE /\ l' = l + 1 /\ t' = t
                /\ st' = IF ev.op = "filter" THEN [r.st EXCEPT !.iv = ev.iv] ELSE IF ev.op = "construct" THEN st ELSE COther(cc, st, ev)
                /\ tele' = CASE ev.op = "filter" -> [des |-> ev.dx, act |-> ev.outx]
                             [] ev.op = "reset" -> [des |-> "none", act |-> "none"]
                             [] OTHER -> tele
Spec == Init /\ [][Step]_vars
=============================================================================
