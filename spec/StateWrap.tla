------------------------------ MODULE StateWrap ------------------------------
(***************************************************************************)
(* State wrappers.  c: what the caller's vector holds; w[k]: what wrapper  *)
(* k holds.  Wrapper 1 is built from the caller's vector, wrapper 2 from   *)
(* wrapper 1's vector (operation "fork").  Names(cls) is the documented    *)
(* order of the components.                                                *)
(***************************************************************************)
EXTENDS LinAlg
Names(cls) == CASE cls = "int1d"  -> <<"x", "x_dot">>
                [] cls = "dock2d" -> <<"x", "y", "x_dot", "y_dot">>
                [] cls = "dock3d" -> <<"x", "y", "z", "x_dot", "y_dot", "z_dot">>
                [] cls = "insp3d" -> <<"x", "y", "z", "x_dot", "y_dot", "z_dot", "sun_angle", "delta_v">>
InitW(cfg) == [c |-> cfg.init, w |-> <<cfg.init, cfg.init>>]
Apply(cfg, s, op) ==
    CASE op.op = "set"    -> [s EXCEPT !.w[op.k] = [@ EXCEPT ![op.i] = op.v]]
      [] op.op = "caller" -> [s EXCEPT !.c = [i \in 1..Len(@) |-> op.v]]
      [] op.op = "fork"   -> [s EXCEPT !.w[2] = s.w[1]]
      [] op.op = "look"   -> s
=============================================================================
