-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* A switching module in closed loop with the plant it predicts: the       *)
(* environment picks any desired control, the plant moves under the        *)
(* returned control.  Backup trajectories of a state are described by      *)
(* SafeFor(x, cs, k): x and the next k states of the backup controller     *)
(* satisfy every enabled constraint.                                       *)
(***************************************************************************)
EXTENDS RtaCore
\* horizon that certifies a state: none beyond itself (explicit), the window (implicit)
Horizon(cfg, dtm) == IF cfg.kind = "is" THEN Steps(cfg, dtm) ELSE 0
SafeFor(cfg, st, x, h, cs, k) ==
    SafeAt(cfg, st, x) /\ LET t == BackupTraj(cfg, x, h, cs, k) IN \A i \in 1..Len(t) : SafeAt(cfg, st, t[i])
\* the assumption of the guarantee: what is safe over the horizon is safe one step longer under the backup controller
Renews(cfg, st, x, h, dtm, cs) ==
    LET k == Horizon(cfg, dtm) IN SafeFor(cfg, st, x, h, cs, k) => SafeFor(cfg, st, x, h, cs, k + 1)
\* the guarantee, as an invariant of the loop
Recoverable(cfg, st, x, h, dtm) == SafeFor(cfg, st, x, h, st.cs, Horizon(cfg, dtm))
=============================================================================
