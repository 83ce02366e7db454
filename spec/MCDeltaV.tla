------------------------------ MODULE MCDeltaV ------------------------------
EXTENDS DeltaV, Json, IOUtils
Cfgs == JsonDeserialize(IOEnv.RTA_CFGS)
VARIABLES ci, st
vars == <<ci, st>>
Key(s) == ToString(<<s.en, s.lat, s.ei>>)
Init == ci \in 1..Len(Cfgs) /\ st = InitD /\ PrintT(ToJson(<<"I", ci, Key(st)>>))
Apply(c, s, op) == IF op.op = "filter" THEN FilterD(c, s, op.x, op.d) ELSE [st |-> OtherD(s, op), out |-> <<>>]
\* design: never un-latches except by reset; a passed control is certified; the integral moves only with a returned backup
OK(c, s, op, a) ==
    op.op = "filter" =>
       /\ Assert((s.en /\ s.lat) => a.st.lat, "design: latch")
       /\ Assert((s.en /\ ~a.st.lat) => a.out = op.d /\ 2 * Move(c, op.x, op.d)[8] <= c.lim2, "design: passed control within the budget")
       /\ Assert((a.st.ei # s.ei) => (a.st.lat /\ s.en), "design: integral")
Next == \E k \in 1..Len(Cfgs[ci].ops) :
          LET c == Cfgs[ci]
              a == Apply(c, st, c.ops[k])
          IN  /\ \A i \in 1..6 : Abs(a.st.ei[i]) <= c.range * S        \* the explored region
              /\ OK(c, st, c.ops[k], a)
              /\ ci' = ci /\ st' = a.st
              /\ PrintT(ToJson(<<"E", ci, Key(st), k, Key(a.st), IF c.ops[k].op # "filter" THEN "" ELSE IF a.st.lat THEN "backup" ELSE "pass">>))
Spec == Init /\ [][Next]_vars
TypeOK == st.lat \in BOOLEAN /\ (~st.lat => st.ei = InitD.ei)
=============================================================================
