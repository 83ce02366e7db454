----------------------------- MODULE TraceSample -----------------------------
(* Recorded sample tests.  Events: row (csv row), end; start/step/finish of a tracked episode; draw (samplers). *)
EXTENDS Sample, Json, IOUtils
Data == JsonDeserialize(IOEnv.RTA_TRACES)
Cfgs == TLCEval(Data.cfgs)
Traces == Data.traces
Q == 1000
VARIABLES t, l, k, x, n, mst, rows, fin
vars == <<t, l, k, x, n, mst, rows, fin>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ k = 1 /\ x = <<>> /\ n = 0 /\ mst = St0(Cfgs[Traces[t].c]) /\ rows = 0 /\ fin = FALSE
C(cond, name) == IF cond THEN {} ELSE {name}
Sc(v) == [i \in 1..Len(v) |-> Q * v[i]]
Close(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
RowFails(s, ev) ==
    LET j == NextSafe(s, k) IN
    C(j # 0, "row beyond the candidates")
    \cup (IF j = 0 THEN {} ELSE C(ev.x0 = Sc(Start(s, j)), "recorded initial state")
          \cup LET v == Verdict(s, Start(s, j), 0) IN C(v = "undecided" \/ ev.safe = (v = "safe"), "verdict"))
EndFails(s, ev) == C(ev.status = "ok", "status:" \o ev.status) \cup C(ev.status # "ok" \/ ev.files = 1, "result files") \cup C(ev.status # "ok" \/ rows = s.n, "number of episodes")
StepFails(s, ev) ==
    LET q == SimStep(s, mst, x) IN
    C(~fin, "steps after the done condition held")
    \cup (IF ~q.known \/ ~q.int THEN {"machinery:outside the integer fragment"}
          ELSE C(Close(ev.u, Sc(q.u), 2), "control history") \cup C(ev.iv = q.iv, "intervention history") \cup C(Close(ev.x, Sc(q.y), 2), "state history"))
StartFails(s, ev) ==
    LET j == IF s.check THEN NextSafe(s, 1) ELSE 1 IN
    C(j # 0, "machinery:no start") \cup C(ev.x = Sc(Start(s, j)), "first state") \cup C(ev.iv = FALSE, "first flag") \cup C(ev.u = [i \in 1..Len(ev.u) |-> 0], "first control")
FinishFails(ev) == C(ev.status = "ok", "status:" \o ev.status) \cup C(ev.status # "ok" \/ fin, "ended before the done condition held")
                   \cup C(ev.lens[1] = ev.lens[2] /\ ev.lens[2] = ev.lens[3], "histories not aligned")
\* draws of the built-in samplers: each component within its own documented range
DrawFails(ev) == C(\A i \in 1..Len(ev.x) : ev.x[i] >= ev.lo[i] - 1 /\ ev.x[i] <= ev.hi[i] + 1, "initial state outside its component's range")
\* an episode from a non-integer start: verdict from the states it went through (1/1000), none if it grazes a limit
Margin(c, y) == CASE c.t = "max" -> Q * c.lim - y[c.i] [] c.t = "min" -> y[c.i] - Q * c.lim [] c.t = "mag" -> Q * c.lim - Abs(y[c.i])
Margins(s, ev) == {Margin(s.rta.cons[i], ev.xs[j]) : i \in 1..NC(s.rta), j \in 1..Len(ev.xs)}
FlightFails(s, ev) == LET m == Margins(s, ev) IN
    IF \E v \in m : v < -3 THEN C(~ev.safe, "verdict") ELSE IF \E v \in m : v <= 3 THEN {} ELSE C(ev.safe = ~ev.raised, "verdict")
\* ready-made tests: verdicts from the margins (logged constraint values, 1/1000) of the states flown through
LeastOf(ms) == CHOOSE v \in ms : \A w \in ms : v <= w
Least(ms) == LeastOf(ElemsOf(ms))
FlownFails(ev) ==
    LET low == LeastOf({Least(ev.ms[j]) : j \in 1..Len(ev.ms)} \cup {2000000})
    IN  IF ev.raised THEN C(~ev.safe, "verdict")
        ELSE (IF low < -3 THEN C(~ev.safe, "verdict") ELSE IF low <= 3 THEN {} ELSE C(ev.safe, "verdict") \cup C(ev.n = ev.lim, "episode length"))
             \cup C(ev.n <= ev.lim /\ ev.n >= 1, "episode length")
RefusedFails(ev) == C(Least(ev.ms) <= 3, "a safe initial state was refused")
AcceptedFails(ev) == C(Least(ev.ms) >= -3, "an unsafe initial state was used")
PlantFails(ev) == C(ev.chained, "a step does not start where the last one ended") \cup C(ev.dt = ev.dtm, "step size") \cup C(Close(ev.y, ev.want, ev.tol), "plant step")
Step == /\ l <= Len(Traces[t].ev)
        /\ LET s == Cfgs[Traces[t].c]
               ev == Traces[t].ev[l]
               f == CASE ev.op = "row" -> RowFails(s, ev)
                      [] ev.op = "end" -> EndFails(s, ev)
                      [] ev.op = "start" -> StartFails(s, ev)
                      [] ev.op = "step" -> StepFails(s, ev)
                      [] ev.op = "finish" -> FinishFails(ev)
                      [] ev.op = "draw" -> DrawFails(ev)
                      [] ev.op = "distinct" -> C(ev.a # ev.b, "the same sample drawn twice")
                      [] ev.op = "flight" -> FlightFails(s, ev)
                      [] ev.op = "flown" -> FlownFails(ev)
                      [] ev.op = "refused" -> RefusedFails(ev)
                      [] ev.op = "accepted" -> AcceptedFails(ev)
                      [] ev.op = "plant" -> PlantFails(ev)
                      [] ev.op = "agree" -> C(ev.a = ev.b, ev.what)
           IN  IF f # {} THEN PrintT(ToJson(<<"FAIL", t, l, SetToSeqS(f)>>)) /\ l' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<t, k, x, n, mst, rows, fin>>
               ELSE /\ l' = l + 1 /\ t' = t
                    /\ k' = IF ev.op = "row" THEN NextSafe(s, k) + 1 ELSE k
                    /\ rows' = IF ev.op = "row" THEN rows + 1 ELSE rows
                    /\ x' = CASE ev.op = "start" -> Start(s, IF s.check THEN NextSafe(s, 1) ELSE 1)
                              [] ev.op = "step" -> SimStep(s, mst, x).y
                              [] OTHER -> x
                    /\ mst' = IF ev.op = "step" THEN SimStep(s, mst, x).mst ELSE mst
                    /\ n' = CASE ev.op = "start" -> 0 [] ev.op = "step" -> n + 1 [] OTHER -> n
                    /\ fin' = CASE ev.op = "start" -> FALSE
                                [] ev.op = "step" -> Done(s, SimStep(s, mst, x).y, n + 1)
                                [] OTHER -> fin
Spec == Init /\ [][Step]_vars
=============================================================================
