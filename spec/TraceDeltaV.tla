----------------------------- MODULE TraceDeltaV -----------------------------
EXTENDS DeltaV, Json, IOUtils
Data == JsonDeserialize(IOEnv.RTA_TRACES)
Cfgs == TLCEval(Data.cfgs)
Traces == Data.traces
VARIABLES t, l, st
vars == <<t, l, st>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = InitD
C(cond, name) == IF cond THEN {} ELSE {name}
FilterFails(ev, r) ==
    C(ev.status = "ok", "status:" \o ev.status)
    \cup (IF ev.status # "ok" THEN {}
          ELSE C(\A i \in 1..3 : Abs(ev.u[i] - r.out[i]) <= 2, "output") \cup (IF st.en THEN C(ev.iv = r.st.lat, "intervening") ELSE {}) \cup C(ev.pure, "caller arrays"))
Step == /\ l <= Len(Traces[t].ev)
        /\ LET c == Cfgs[Traces[t].c]
               ev == Traces[t].ev[l]
               r == IF ev.op = "filter" THEN FilterD(c, st, ev.x, ev.d) ELSE [st |-> st, out |-> <<>>]
               f == CASE ev.op = "filter" -> FilterFails(ev, r)
                      [] ev.op = "info" -> C(ev.status = "ok" /\ ev.en = st.en /\ (ev.iv = st.lat), "info")
                      [] OTHER -> C(ev.status = "ok", ev.op \o ".status:" \o ev.status)
           IN  IF f # {} THEN PrintT(ToJson(<<"FAIL", t, l, SetToSeqS(f)>>)) /\ l' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<t, st>>
               ELSE /\ l' = l + 1 /\ t' = t
                    /\ st' = CASE ev.op = "filter" -> r.st [] ev.op = "construct" -> st [] OTHER -> OtherD(st, ev)
Spec == Init /\ [][Step]_vars
=============================================================================
