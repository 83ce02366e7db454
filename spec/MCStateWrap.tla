----------------------------- MODULE MCStateWrap -----------------------------
EXTENDS StateWrap, Json, IOUtils
Cfgs == JsonDeserialize(IOEnv.RTA_CFGS)
VARIABLES ci, st
vars == <<ci, st>>
Key(s) == ToString(<<s.c, s.w>>)
Init == ci \in 1..Len(Cfgs) /\ st = InitW(Cfgs[ci]) /\ PrintT(ToJson(<<"I", ci, Key(st)>>))
\* design: a setter touches one component of one wrapper, the caller's vector none
OneOnly(s, t, op) == op.op = "set" => /\ t.c = s.c /\ t.w[3 - op.k] = s.w[3 - op.k]
                                      /\ \A i \in 1..Len(s.c) : i # op.i => t.w[op.k][i] = s.w[op.k][i]
                                      /\ t.w[op.k][op.i] = op.v
Next == \E k \in 1..Len(Cfgs[ci].ops) :
          LET a == Apply(Cfgs[ci], st, Cfgs[ci].ops[k])
          IN  /\ Assert(OneOnly(st, a, Cfgs[ci].ops[k]), "design: setter")
              /\ ci' = ci /\ st' = a /\ PrintT(ToJson(<<"E", ci, Key(st), k, Key(a), "">>))
Spec == Init /\ [][Next]_vars
TypeOK == \A k \in 1..2 : Len(st.w[k]) = Len(Names(Cfgs[ci].cls))
=============================================================================
