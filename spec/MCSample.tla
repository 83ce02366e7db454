------------------------------ MODULE MCSample ------------------------------
(***************************************************************************)
(* The sampling process as a state machine: draw, step, record.  seen is   *)
(* the set of states the current episode visited after its start.          *)
(***************************************************************************)
EXTENDS Sample, Json, IOUtils
Cfgs == JsonDeserialize(IOEnv.RTA_CFGS)
VARIABLES ci, pc, k, x, n, mst, failed, seen, rows
vars == <<ci, pc, k, x, n, mst, failed, seen, rows>>
Init == /\ ci \in 1..Len(Cfgs) /\ pc = "draw" /\ k = 0 /\ x = Start(Cfgs[ci], 1) /\ n = 0 /\ mst = St0(Cfgs[ci]) /\ failed = FALSE /\ seen = {} /\ rows = <<>>
c == Cfgs[ci]
Draw == /\ pc = "draw" /\ Len(rows) < c.n /\ k < Len(c.ics)
        /\ k' = k + 1 /\ x' = Start(c, k + 1) /\ n' = 0 /\ failed' = FALSE /\ seen' = {}
        /\ pc' = IF InitSafe(c, Start(c, k + 1)) THEN "fly" ELSE "draw"
        /\ UNCHANGED <<ci, mst, rows>>
Fly == /\ pc = "fly"
       /\ LET q == SimStep(c, mst, x) IN
            /\ Assert(q.known /\ q.int, <<"outside the integer fragment", c.name, x>>)
            /\ n' = n + 1 /\ mst' = q.mst /\ failed' = ~q.ok /\ x' = (IF q.ok THEN q.y ELSE x) /\ seen' = (IF q.ok THEN seen \cup {q.y} ELSE seen)
            /\ pc' = IF ~q.ok \/ ~AllRaw(c, q.y) \/ Done(c, q.y, n + 1) THEN "record" ELSE "fly"
       /\ UNCHANGED <<ci, k, rows>>
Record == /\ pc = "record"
          /\ rows' = Append(rows, [k |-> k, safe |-> ~failed /\ \A y \in seen : AllRaw(c, y)])
          /\ pc' = "draw" /\ UNCHANGED <<ci, k, x, n, mst, failed, seen>>
Next == Draw \/ Fly \/ Record
Spec == Init /\ [][Next]_vars
\* C18: rows are initially safe draws in order, with the verdict of the whole episode; never more than asked
RowsOK == /\ Len(rows) <= c.n
          /\ \A i \in 1..Len(rows) : InitSafe(c, Start(c, rows[i].k)) /\ rows[i].safe = (Verdict(c, Start(c, rows[i].k), 0) = "safe")
          /\ \A i \in 1..Len(rows) : rows[i].k = NextSafe(c, IF i = 1 THEN 1 ELSE rows[i - 1].k + 1)
TimeOK == n <= c.steps
=============================================================================
