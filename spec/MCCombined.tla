----------------------------- MODULE MCCombined -----------------------------
EXTENDS Combined, Json, IOUtils
Cfgs == JsonDeserialize(IOEnv.RTA_CFGS)
VARIABLES ci, st
vars == <<ci, st>>
Key(s) == ToString(<<s.en, s.iv, s.den, s.div>>)
\* design: a view is a permutation of the joint state that puts the agent first and the sun last
ViewOK(n) == \A i \in 1..n : LET p == ViewIdx(n, i) IN
    /\ ElemsOf(p) = 1..(6 * n + 1) /\ Len(p) = 6 * n + 1
    /\ p[6 * n + 1] = 6 * n + 1
    /\ \A k \in 1..6 : p[k] = 6 * (i - 1) + k
    /\ \A a, b \in 7..(6 * n) : a < b => p[a] < p[b]
Init == /\ ci \in 1..Len(Cfgs) /\ st = InitC
        /\ Assert(ViewOK(Cfgs[ci].n), "design: view")
        /\ PrintT(ToJson(<<"I", ci, Key(st)>>))
Apply(c, s, op) == IF op.op = "filter" THEN FilterC(c, s, op.x, op.d).st ELSE OtherC(s, op)
Next == \E k \in 1..Len(Cfgs[ci].ops) :
          LET a == Apply(Cfgs[ci], st, Cfgs[ci].ops[k])
          IN  ci' = ci /\ st' = a /\ PrintT(ToJson(<<"E", ci, Key(st), k, Key(a), IF a.iv THEN "intervene" ELSE "pass">>))
Spec == Init /\ [][Next]_vars
TypeOK == st.en \in BOOLEAN
=============================================================================
