----------------------------- MODULE Controller -----------------------------
(* A backup controller on its own: memory m, saved copy sv (<<>> = never saved). *)
(* Calls: gen(x) returns a control and advances; peek(x, v) evaluates with an    *)
(* explicitly given memory and changes nothing; jac(x) changes nothing; save,    *)
(* restore, reset.                                                               *)
EXTENDS RtaCore
OpList(c) == Flatten([i \in 1..Len(c.xs) |-> << [op |-> "gen", x |-> c.xs[i], v |-> 0], [op |-> "jac", x |-> c.xs[i], v |-> 0],
                                               [op |-> "peek", x |-> c.xs[i], v |-> 1] >>])
             \o << [op |-> "save", x |-> <<>>, v |-> 0], [op |-> "restore", x |-> <<>>, v |-> 0], [op |-> "reset", x |-> <<>>, v |-> 0] >>
CtlInit(c) == [m |-> c.bk.cs0, sv |-> <<>>]
CtlEnabled(s, op) == op.op # "restore" \/ s.sv # <<>>
\* result [s, u]
CtlStep(c, s, op) ==
    CASE op.op = "gen"     -> LET b == Backup(c, op.x, s.m) IN [s |-> [s EXCEPT !.m = b.cs], u |-> b.u]
      [] op.op = "peek"    -> LET b == Backup(c, op.x, IF c.bk.t = "lin" THEN 0 ELSE op.v) IN [s |-> s, u |-> b.u \o <<b.cs>>]
      [] op.op = "jac"     -> [s |-> s, u |-> IF c.bk.t = "pat" THEN Zero(Len(c.bk.seq[1]))
                                               ELSE Scale(IF c.bk.t = "gain" THEN s.m ELSE 1, [i \in 1..Len(c.bk.K) |-> Sum(c.bk.K[i])])]
      [] op.op = "save"    -> [s |-> [s EXCEPT !.sv = <<s.m>>], u |-> <<>>]
      [] op.op = "restore" -> [s |-> [s EXCEPT !.m = s.sv[1]], u |-> <<>>]
      [] op.op = "reset"   -> [s |-> [s EXCEPT !.m = c.bk.cs0], u |-> <<>>]
=============================================================================
