------------------------------ MODULE TraceLoop ------------------------------
(***************************************************************************)
(* Recorded closed loops of real switching modules.  Only the guarantee is *)
(* judged: every recorded state satisfies every enabled constraint (states *)
(* in 1/1000, rounding 2).  The loop is recorded under the assumption      *)
(* that MCLoop established for the configuration.                          *)
(***************************************************************************)
EXTENDS Loop, Json, IOUtils
Data == JsonDeserialize(IOEnv.RTA_TRACES)
Cfgs == TLCEval(Data.cfgs)
Traces == Data.traces
Q == 1000
VARIABLES t, l
vars == <<t, l>>
Init == t \in 1..Len(Traces) /\ l = 1
\* plant state within the limit of constraint c, scaled; quadratic limits carry no bias here
Holds(c, xs) == CASE c.t = "max" -> xs[c.i] <= Q * (c.lim + c.bias) + 2
                  [] c.t = "min" -> xs[c.i] >= Q * (c.lim - c.bias) - 2
                  [] c.t = "mag" -> Abs(xs[c.i]) <= Q * c.lim + 2
                  [] c.t = "lin" -> Dot(c.w, xs) + Q * (c.lim + c.bias) >= -2 * Sum([i \in 1..Len(c.w) |-> Abs(c.w[i])])
Bad(cfg, ev) == {cfg.cons[i].name : i \in {j \in 1..NC(cfg) : cfg.cons[j].en /\ ~Holds(cfg.cons[j], ev.xs)}}
Fails(cfg, ev) == (IF ev.status = "ok" THEN {} ELSE {"status:" \o ev.status}) \cup {"unsafe:" \o n : n \in Bad(cfg, ev)}
Step == /\ l <= Len(Traces[t].ev)
        /\ LET f == Fails(Cfgs[Traces[t].c], Traces[t].ev[l])
           IN  IF f # {} THEN PrintT(ToJson(<<"FAIL", t, l, SetToSeqS(f)>>)) /\ l' = Len(Traces[t].ev) + 1 /\ t' = t
               ELSE l' = l + 1 /\ t' = t
Spec == Init /\ [][Step]_vars
=============================================================================
