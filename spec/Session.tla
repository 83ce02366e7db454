------------------------------- MODULE Session -------------------------------
(* Any RTA module, seen from outside: what its decisions may depend on.  An instance is
     en    enable switch
     names constraints it has, in order;  ver, on: parameter version and enable flag of each (by name)
     hist  the calls its decisions may depend on (none for a history-free module)
     des, act, iv, ivk   what telemetry must report (ivk: the flag is claimed)
     key, vx             telemetry key and the state its constraint values belong to (0: none)
   Filtering is some function of (constructor variant, enabled constraints with their parameters, hist, inputs);
   which function is learned from the recording: the first observation for a key fixes the value. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ops == {"filter", "on", "off", "reset", "upd", "info", "ver", "con", "eval"}
Fresh(var, names, ver, on) ==
    [var |-> var, en |-> TRUE, names |-> names, ver |-> ver, on |-> on, hist |-> <<>>, des |-> "none", act |-> "none", iv |-> FALSE, ivk |-> TRUE,
     key |-> IF names = <<>> THEN "" ELSE "constraints", vx |-> 0]
Renew(s) == Fresh(s.var, s.names, s.ver, s.on)
Setting(s) == {<<n, s.ver[n]>> : n \in {m \in DOMAIN s.on : s.on[m]}}
Key(s, free, x, h, d) == <<s.var, Setting(s), IF free THEN <<>> ELSE s.hist, x, h, d>>
Past(s, free, e) == IF free THEN s.hist ELSE Append(s.hist, e)
DoFilter(s, free, x, h, d, dx, outx, iv) ==
    IF s.en THEN [s EXCEPT !.hist = Past(s, free, <<x, h, d>>), !.des = dx, !.act = outx, !.iv = iv, !.ivk = TRUE,
                           !.key = IF s.names = <<>> THEN "" ELSE "constraints_at_last_state", !.vx = IF s.names = <<>> THEN 0 ELSE x]
    ELSE [s EXCEPT !.des = dx, !.act = dx, !.ivk = FALSE]
DoUpdate(s, x) == [s EXCEPT !.key = "constraints", !.vx = x]
DoVer(s, free, n, ci, v) == [s EXCEPT !.ver[n] = v, !.hist = Past(s, free, <<-1, ci, v>>)]
DoCon(s, free, n, ci, v) == [s EXCEPT !.on[n] = v, !.hist = Past(s, free, <<-2, ci, IF v THEN 1 ELSE 0>>)]
DoEnable(s, v) == [s EXCEPT !.en = v]
=============================================================================
