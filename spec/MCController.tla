---------------------------- MODULE MCController ----------------------------
EXTENDS Controller, Json, IOUtils
Cfgs == JsonDeserialize(IOEnv.RTA_CFGS)
VARIABLES ci, s
vars == <<ci, s>>
Key(q) == ToString(<<q.m, q.sv>>)
Init == ci \in 1..Len(Cfgs) /\ s = CtlInit(Cfgs[ci]) /\ PrintT(ToJson(<<"I", ci, Key(s)>>))
Next == \E k \in 1..Len(OpList(Cfgs[ci])) :
          LET op == OpList(Cfgs[ci])[k] IN
          /\ CtlEnabled(s, op)
          /\ ci' = ci
          /\ s' = CtlStep(Cfgs[ci], s, op).s
          /\ PrintT(ToJson(<<"E", ci, Key(s), k, Key(s'), "">>))
Spec == Init /\ [][Next]_vars
TypeOK == s.m \in 0..(Cfgs[ci].bk.mod - 1)
=============================================================================
