---------------------------- MODULE TraceCombined ----------------------------
EXTENDS Combined, Json, IOUtils
Data == JsonDeserialize(IOEnv.RTA_TRACES)
Cfgs == TLCEval(Data.cfgs)
Traces == Data.traces
S == 100
VARIABLES t, l, st
vars == <<t, l, st>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = InitC
C(cond, name) == IF cond THEN {} ELSE {name}
Near(u, fl, ce) == Len(fl) = Len(u) /\ \A i \in 1..Len(u) : Abs(fl[i] - S * u[i]) <= 1 /\ Abs(ce[i] - S * u[i]) <= 1
FilterFails(ev, r) == C(ev.status = "ok", "status:" \o ev.status)
    \cup (IF ev.status # "ok" THEN {} ELSE C(Near(r.out, ev.fl, ev.ce), "output") \cup (IF r.stale THEN {} ELSE C(ev.iv = r.st.iv, "intervening")) \cup C(ev.pure, "caller arrays"))
\* comparison of the real default deputy: agent by agent on the view of this specification
AgentFails(c, ev) ==
    C(ev.status = "ok", "status:" \o ev.status)
    \cup (IF ev.status # "ok" THEN {}
          ELSE C(ev.views = [i \in 1..c.n |-> ViewIdx(c.n, i)], "machinery:view")
               \cup C(\A i \in 1..Len(ev.comb) : Abs(ev.comb[i] - ev.alone[i]) <= 5, "output differs from the deputies' own")
               \cup C(ev.iv = (\E i \in 1..c.n : ev.ivs[i]), "intervening"))
Step == /\ l <= Len(Traces[t].ev)
        /\ LET c == Cfgs[Traces[t].c]
               ev == Traces[t].ev[l]
               r == IF ev.op = "filter" THEN FilterC(c, st, ev.x, ev.d) ELSE [st |-> st, out |-> <<>>, stale |-> FALSE]
               f == CASE ev.op = "filter" -> FilterFails(ev, r)
                      [] ev.op = "agents" -> AgentFails(c, ev)
                      \* switched-off deputies: every agent's own control, to the last bit (texts)
                      [] ev.op = "exact" -> C(ev.status = "ok", "status:" \o ev.status) \cup C(ev.status # "ok" \/ \A i \in 1..c.n : UOf(ev.u, i) = UOf(ev.d, i), "control of a switched-off deputy")
                      [] ev.op = "info" -> C(ev.status = "ok" /\ ev.en = st.en /\ ev.iv = st.iv, "info")
                      [] OTHER -> C(ev.status = "ok", ev.op \o ".status:" \o ev.status)
           IN  IF f # {} THEN PrintT(ToJson(<<"FAIL", t, l, SetToSeqS(f)>>)) /\ l' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<t, st>>
               ELSE /\ l' = l + 1 /\ t' = t
                    /\ st' = CASE ev.op = "filter" -> [r.st EXCEPT !.iv = ev.iv]
                               [] ev.op \in {"agents", "construct", "exact"} -> st
                               [] OTHER -> OtherC(st, ev)
Spec == Init /\ [][Step]_vars
=============================================================================
