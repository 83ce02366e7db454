------------------------------ MODULE MCSession ------------------------------
(* Sessions of calls on a module: every kind of call after every other kind, in every combination of switch, parameter
   versions and disabled constraints.  The history is the real one up to Bound calls, which is enough to check what may
   not influence decisions. *)
EXTENDS Session, Json, IOUtils
Cfgs == TLCEval(JsonDeserialize(IOEnv.RTA_CFGS))
VARIABLES ci, s, last
vars == <<ci, s, last>>
NamesOf(c) == {c.names[k] : k \in 1..Len(c.names)}
Start(c) == Fresh(1, c.names, [n \in NamesOf(c) |-> 0], [n \in NamesOf(c) |-> TRUE])
View(c, z, k) == ToString(<<z.en, [n \in {c.track[j] : j \in 1..Len(c.track)} |-> <<z.ver[n], z.on[n]>>], k>>)
Init == ci \in 1..Len(Cfgs) /\ s = Start(Cfgs[ci]) /\ last = "start" /\ PrintT(ToJson(<<"I", ci, View(Cfgs[ci], s, last)>>))
Apply(z, op) == CASE op.op = "filter" -> DoFilter(z, TRUE, op.x, op.h, op.d, "d", "a", FALSE)
                  [] op.op = "on" -> DoEnable(z, TRUE) [] op.op = "off" -> DoEnable(z, FALSE)
                  [] op.op = "reset" -> Renew(z) [] op.op = "upd" -> DoUpdate(z, op.x)
                  [] op.op = "ver" -> DoVer(z, TRUE, op.n, op.ci, op.v) [] op.op = "con" -> DoCon(z, TRUE, op.n, op.ci, op.v)
                  [] OTHER -> z
Norm(z) == [z EXCEPT !.des = "", !.act = "", !.key = "", !.vx = 0, !.iv = FALSE, !.ivk = TRUE]
Design(z, op) ==
    LET y == Apply(z, op) IN
    /\ op.op = "reset" => y = Fresh(z.var, z.names, z.ver, z.on)
    \* with the real history: a call on a disabled module, telemetry and the switch itself never enter the key of a later decision
    /\ (op.op = "filter" /\ ~z.en) => Key(DoFilter(z, FALSE, op.x, op.h, op.d, "d", "a", FALSE), FALSE, 1, 1, 1) = Key(z, FALSE, 1, 1, 1)
    /\ op.op \in {"on", "off", "upd", "info"} => Key(y, FALSE, 1, 1, 1) = Key(z, FALSE, 1, 1, 1)
    /\ (op.op = "filter" /\ z.en) => Key(DoFilter(z, FALSE, op.x, op.h, op.d, "d", "a", FALSE), FALSE, 1, 1, 1) # Key(z, FALSE, 1, 1, 1)
    \* a disabled constraint's parameters do not enter it either
    /\ (op.op = "ver" /\ ~z.on[op.n]) => Key(y, TRUE, 1, 1, 1) = Key(z, TRUE, 1, 1, 1)
Next == \E k \in 1..Len(Cfgs[ci].ops) :
          LET op == Cfgs[ci].ops[k]  y == Norm(Apply(s, op)) IN
          /\ Assert(Design(s, op), <<"design", op, s>>)
          /\ ci' = ci /\ s' = y /\ last' = op.k
          /\ PrintT(ToJson(<<"E", ci, View(Cfgs[ci], s, last), k, View(Cfgs[ci], y, op.k), "">>))
Spec == Init /\ [][Next]_vars
TypeOK == s.hist = <<>> /\ s.en \in BOOLEAN
=============================================================================
