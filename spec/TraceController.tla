--------------------------- MODULE TraceController ---------------------------
EXTENDS Controller, Json, IOUtils
Data == JsonDeserialize(IOEnv.RTA_TRACES)
Cfgs == Data.cfgs
Traces == Data.traces
S == 10000
VARIABLES t, l, s
vars == <<t, l, s>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ s = CtlInit(Cfgs[Traces[t].c])
Same(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Abs(v[i] - S * u[i]) <= 2
Step ==
    /\ l <= Len(Traces[t].ev)
    /\ LET c  == Cfgs[Traces[t].c]
           ev == Traces[t].ev[l]
           op == OpList(c)[ev.k]
           r  == CtlStep(c, s, op)
           bad == (IF ev.status = "ok" THEN {} ELSE {op.op \o ".status:" \o ev.status})
                  \cup (IF ev.status # "ok" \/ Same(r.u, ev.u) THEN {} ELSE {"controller." \o op.op})
       IN  IF bad # {} THEN PrintT(ToJson(<<"FAIL", t, l, SetToSeqS(bad)>>)) /\ l' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<t, s>>
           ELSE l' = l + 1 /\ t' = t /\ s' = r.s
Spec == Init /\ [][Step]_vars
=============================================================================
