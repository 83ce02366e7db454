---------------------------- MODULE TraceStateWrap ----------------------------
EXTENDS StateWrap, Json, IOUtils
Data == JsonDeserialize(IOEnv.RTA_TRACES)
Cfgs == TLCEval(Data.cfgs)
Traces == Data.traces
VARIABLES t, l, st
vars == <<t, l, st>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = InitW(Cfgs[Traces[t].c])
C(cond, name) == IF cond THEN {} ELSE {name}
\* values in 1/100
Sc(v) == [i \in 1..Len(v) |-> 100 * v[i]]
Fails(cfg, ev, s) ==
    C(ev.status = "ok", "status:" \o ev.status)
    \cup (IF ev.status # "ok" THEN {}
          ELSE C(ev.caller = Sc(s.c), "caller's vector")
               \cup UNION { C(ev.vec[k] = Sc(s.w[k]), "vector")
                            \cup C(\A i \in 1..Len(s.w[k]) : ev.got[k][i].n = Names(cfg.cls)[i] /\ ev.got[k][i].v = 100 * s.w[k][i], "getter")
                            \cup C(ev.size[k] = Len(s.c) /\ ev.len[k] = Len(s.c), "size") : k \in 1..2 })
Step == /\ l <= Len(Traces[t].ev)
        /\ LET cfg == Cfgs[Traces[t].c]
               ev == Traces[t].ev[l]
               s == Apply(cfg, st, ev)
               f == Fails(cfg, ev, s)
           IN  IF f # {} THEN PrintT(ToJson(<<"FAIL", t, l, SetToSeqS(f)>>)) /\ l' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<t, st>>
               ELSE l' = l + 1 /\ t' = t /\ st' = s
Spec == Init /\ [][Step]_vars
=============================================================================
