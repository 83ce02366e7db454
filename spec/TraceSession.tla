----------------------------- MODULE TraceSession -----------------------------
(* Recorded sessions with several instances of one module, judged against Session. *)
EXTENDS Session, Json, IOUtils
Data == JsonDeserialize(IOEnv.RTA_TRACES)
Cfgs == TLCEval(Data.cfgs)
Traces == Data.traces
Judge == TLCEval({Data.judge[k] : k \in 1..Len(Data.judge)})
VARIABLES t, l, inst, memo, vals, full
vars == <<t, l, inst, memo, vals, full>>
RECURSIVE SetSeq(_)
SetSeq(X) == IF X = {} THEN <<>> ELSE LET e == CHOOSE e \in X : TRUE IN <<e>> \o SetSeq(X \ {e})
None == [k \in {} |-> 0]
Init == t \in 1..Len(Traces) /\ l = 1 /\ inst = None /\ memo = None /\ vals = None /\ full = <<>>
C(cond, name) == IF cond \/ ~(name \in Judge) THEN {} ELSE {name}
Ab(a) == IF a < 0 THEN -a ELSE a
Close(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Ab(a[k] - b[k]) <= tol
Same(a, b) == Ab(a - b) <= 3 + Ab(b) \div 20000
Pick(seq, sel) == SelectSeq(seq, LAMBDA n : \E k \in 1..Len(sel) : sel[k] = n)
Flags(seq) == [n \in {seq[k].n : k \in 1..Len(seq)} |-> seq[CHOOSE k \in 1..Len(seq) : seq[k].n = n]]
\* the documented intervention flag compares a distance with epsilon: on the edge rounding decides
Edge(c, ev) == c.eps > 0 /\ \E k \in 1..Len(ev.dv) : Ab(Ab(ev.out[k] - ev.dv[k]) - c.eps) <= 5 * c.tol

NewFails(c, ev) ==
    LET want == IF ev.all THEN (IF full = <<>> THEN ev.names ELSE full) ELSE Pick(full, ev.sel) IN
    IF want = <<>> /\ ~ev.all THEN C(ev.status = "error:ValueError", "selection")
    ELSE C(ev.status = "ok", "selection") \cup (IF ev.status = "ok" THEN C(ev.names = want, "selection") ELSE {"status:" \o ev.status})
FilterFails(c, s, ev) ==
    LET k == Key(s, c.free, ev.x, ev.h, ev.d) IN
    (IF ev.status \in {"ok", "warn", "solver_error"} THEN {} ELSE {"status:" \o ev.status})
    \cup C(ev.pure, "inputs")
    \cup (IF s.en
          THEN C(\A j \in 1..Len(ev.out) : (c.lo[j] = <<>> \/ ev.out[j] >= c.lo[j][1] - 1) /\ (c.hi[j] = <<>> \/ ev.out[j] <= c.hi[j][1] + 1), "bounds")
               \cup (IF k \in DOMAIN memo
                     THEN C(ev.status = memo[k].status /\ (Close(ev.out, memo[k].out, c.tol) \/ (c.loose /\ ev.status # "ok")) /\ (ev.iv = memo[k].iv \/ Edge(c, ev)), "decision")
                     ELSE {})
          ELSE C(ev.status = "ok" /\ ev.outx = ev.dx, "passthrough"))
ValFails(s, x, got) ==
    C(Len(got) = Len(s.names) /\ \A k \in 1..Len(s.names) : got[k].k = s.names[k], "telemetry")
    \cup UNION {LET kk == <<got[j].k, s.ver[got[j].k], x>> IN IF kk \in DOMAIN vals THEN C(Same(got[j].v, vals[kk]), "telemetry") ELSE {} : j \in {j2 \in 1..Len(got) : got[j2].k \in DOMAIN s.ver}}
InfoFails(c, s, ev) ==
    C(ev.status = "ok" /\ ev.en = s.en, "telemetry")
    \cup (IF s.ivk THEN C(ev.iv = s.iv, "telemetry") ELSE {})
    \cup C(ev.des = s.des /\ ev.act = s.act, "telemetry")
    \cup C(ev.key = s.key, "telemetry")
    \cup (IF s.vx = 0 THEN C(ev.vals = <<>>, "telemetry") ELSE ValFails(s, s.vx, ev.vals))
\* a cascade: the stages, used one after the other on their own, explain the cascade's output
Clip(c, j, v) == IF c.lo[j] # <<>> /\ v < c.lo[j][1] THEN c.lo[j][1] ELSE IF c.hi[j] # <<>> /\ v > c.hi[j][1] THEN c.hi[j][1] ELSE v
ChainFails(c, ev) ==
    (IF ev.status \in {"ok", "warn"} THEN {} ELSE {"status:" \o ev.status})
    \cup (IF ~ev.en THEN C(ev.outx = ev.dx, "passthrough")
          ELSE LET last == ev.stages[Len(ev.stages)] IN
               C(ev.stages[1].inp = ev.dv /\ \A k \in 2..Len(ev.stages) : ev.stages[k].inp = ev.stages[k - 1].out, "chain")
               \cup C(Close(ev.out, [j \in 1..Len(last.out) |-> Clip(c, j, last.out[j])], c.tol), "chain")
               \cup C(ev.iv = (\E k \in 1..Len(ev.stages) : ev.stages[k].iv), "chain"))
Fails(c, ev) ==
    IF ev.op = "chain" THEN ChainFails(c, ev)
    ELSE IF ev.op = "new" THEN NewFails(c, ev)
    ELSE LET s == inst[ev.i] IN
    CASE ev.op = "filter" -> FilterFails(c, s, ev)
      [] ev.op = "info" -> InfoFails(c, s, ev)
      [] ev.op = "eval" -> (IF ev.status = "ok" THEN ValFails(s, ev.x, ev.vals) ELSE {"status:" \o ev.status})
      [] OTHER -> IF ev.status = "ok" THEN {} ELSE {"status:" \o ev.status}
After(c, ev) ==
    IF ev.op = "chain" THEN inst
    ELSE IF ev.op = "new" THEN IF ev.status # "ok" THEN inst
                          ELSE (ev.i :> Fresh(ev.var, ev.names, [n \in {ev.cons[k].n : k \in 1..Len(ev.cons)} |-> Flags(ev.cons)[n].v], [n \in {ev.cons[k].n : k \in 1..Len(ev.cons)} |-> Flags(ev.cons)[n].on])) @@ inst
    ELSE LET s == inst[ev.i]
             y == CASE ev.op = "filter" -> DoFilter(s, c.free, ev.x, ev.h, ev.d, ev.dx, ev.outx, ev.iv)
                    [] ev.op = "on" -> DoEnable(s, TRUE) [] ev.op = "off" -> DoEnable(s, FALSE)
                    [] ev.op = "reset" -> Renew(s) [] ev.op = "upd" -> DoUpdate(s, ev.x)
                    [] ev.op = "ver" -> DoVer(s, c.free, ev.n, ev.ci, ev.v) [] ev.op = "con" -> DoCon(s, c.free, ev.n, ev.ci, ev.v)
                    [] OTHER -> s
         IN [inst EXCEPT ![ev.i] = y]
Memo(c, ev) == IF ev.op = "filter" /\ inst[ev.i].en
               THEN LET k == Key(inst[ev.i], c.free, ev.x, ev.h, ev.d) IN IF k \in DOMAIN memo THEN memo ELSE (k :> [out |-> ev.out, iv |-> ev.iv, status |-> ev.status]) @@ memo
               ELSE memo
Vals(c, ev) == IF ev.op = "eval" /\ ev.status = "ok"
               THEN [k \in {<<ev.vals[j].k, inst[ev.i].ver[ev.vals[j].k], ev.x>> : j \in 1..Len(ev.vals)} |-> ev.vals[CHOOSE j \in 1..Len(ev.vals) : ev.vals[j].k = k[1]].v] @@ vals
               ELSE vals
Step == /\ l <= Len(Traces[t].ev)
        /\ LET c == Cfgs[Traces[t].c]  ev == Traces[t].ev[l]  f == TLCEval(Fails(c, ev))
           IN  IF f # {} THEN PrintT(ToJson(<<"FAIL", t, l, SetSeq(f)>>)) /\ l' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<t, inst, memo, vals, full>>
               ELSE /\ l' = l + 1 /\ t' = t
                    /\ inst' = TLCEval(After(c, ev)) /\ memo' = TLCEval(Memo(c, ev)) /\ vals' = TLCEval(Vals(c, ev))
                    /\ full' = IF ev.op = "new" /\ ev.all /\ full = <<>> THEN ev.names ELSE full
Spec == Init /\ [][Step]_vars
=============================================================================
