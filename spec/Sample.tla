------------------------------- MODULE Sample -------------------------------
(***************************************************************************)
(* Sample testing.  A configuration s holds a module configuration s.rta,  *)
(* a real plant (s.A, s.c, s.B: not necessarily the module's), a desired   *)
(* control law (s.K, s.k), candidate initial states s.ics (a transform     *)
(* s.off is added), a step h / dtm, a time limit s.steps (in steps) and a  *)
(* done level: the episode also ends when the first state component        *)
(* reaches s.done (if set).  The module's state is threaded through an     *)
(* episode; several episodes are only asked of modules without memory.     *)
(* s.pre: settings of the module changed before the test started.          *)
(***************************************************************************)
EXTENDS RtaCore
RECURSIVE After(_, _, _)
After(cfg, st, ops) == IF ops = <<>> THEN st ELSE After(cfg, Other(cfg, st, Head(ops)), Tail(ops))
St0(s) == After(s.rta, InitState(s.rta), s.pre)
Start(s, k) == Add(s.ics[k], s.off)
AllRaw(s, x) == LET L == St0(s).lim IN \A i \in 1..NC(s.rta) : RawVal(s.rta.cons[i], L[i], x) >= 0
\* initially safe: with and without bias, whether enabled or not
InitSafe(s, x) == AllRaw(s, x) /\ LET L == St0(s).lim IN \A i \in 1..NC(s.rta) : HVal(s.rta.cons[i], L[i], x) >= 0
Desired(s, x) == Add(MatVec(s.K, x), s.k)
PlantStep(s, x, u) == LET f == IF s.rta.mode = "ct" THEN s.h ELSE 1 IN Add(x, Scale(f, Add(Add(MatVec(s.A, x), s.c), MatVec(s.B, u))))
Done(s, x, n) == n >= s.steps \/ (s.done # <<>> /\ x[1] >= s.done[1])
\* one simulated step of the episode: next state, control, flag; ok FALSE when the solver failed (raised)
SimStep(s, mst, x) ==
    LET r == Filter(s.rta, mst, x, s.h, s.dtm, Desired(s, x))
        u == [i \in 1..Len(r.out.n) |-> r.out.n[i] \div r.out.d]
    IN  [int |-> \A i \in 1..Len(r.out.n) : r.out.n[i] % r.out.d = 0, known |-> r.status \in {"ok", "warn", "raise", "off"},
         ok |-> r.status # "raise", mst |-> r.st, u |-> u, iv |-> r.st.iv, y |-> PlantStep(s, x, u)]
\* verdict of an episode from x: "safe", "unsafe" or "undecided" (outside the integer fragment)
RECURSIVE VerdictFrom(_, _, _, _)
VerdictFrom(s, mst, x, n) == LET q == SimStep(s, mst, x) IN
    IF ~q.known \/ ~q.int THEN "undecided"
    ELSE IF ~q.ok THEN "unsafe"
    ELSE IF ~AllRaw(s, q.y) THEN "unsafe"
    ELSE IF Done(s, q.y, n + 1) THEN "safe" ELSE VerdictFrom(s, q.mst, q.y, n + 1)
Verdict(s, x, n) == VerdictFrom(s, St0(s), x, n)
\* next initially safe candidate at or after k (0: none left)
RECURSIVE NextSafe(_, _)
NextSafe(s, k) == IF k > Len(s.ics) THEN 0 ELSE IF InitSafe(s, Start(s, k)) THEN k ELSE NextSafe(s, k + 1)
=============================================================================
