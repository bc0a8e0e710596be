------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Trace validation.  Every line of TRACE is one recorded scenario; the    *)
(* state is the scenario, the position in it and the specification's state *)
(* after the events so far.  Step(st, e) is the specification's transition *)
(* for event e: whether the recorded outcome is allowed, and the state     *)
(* after it.  An event that is not allowed is reported and validation goes *)
(* on, so that one defect does not hide others.  The runner checks that    *)
(* the number of states is that of all events plus one per scenario.       *)
(***************************************************************************)
EXTENDS Steps, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i, st
vars == <<sc, i, st>>
Init == sc \in 1..Len(Traces) /\ i = 1 /\ st = StInit
Next == /\ i <= Len(Traces[sc].ev)
        /\ LET e == Traces[sc].ev[i]
               r == Step(st, e)
           IN /\ IF r.ok THEN TRUE ELSE PrintT(<<"REJECT", sc, i, e.op>>)
              /\ st' = r.s
        /\ i' = i + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
View == <<sc, i>>
=============================================================================
