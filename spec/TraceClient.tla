---------------------------- MODULE TraceClient ----------------------------
(***************************************************************************)
(* Validates histories recorded from the real client.                      *)
(***************************************************************************)
EXTENDS Client, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, c, ok
vars == <<t, i, c, ok>>

Init == t \in 1..Len(Scenarios) /\ i = 1 /\ c = InitClient /\ ok = TRUE

Next ==
  /\ ok
  /\ LET S == Scenarios[t] IN
     /\ i <= Len(S.ev)
     /\ LET r == StepClient(S, c, S.ev[i])
            good == r.obs = S.obs[i]
        IN /\ c' = r
           /\ ok' = good
           /\ IF ~good THEN PrintT("MISMATCH" \o ToString(<<t, i, r.obs>>))
              ELSE IF i = Len(S.ev) THEN PrintT(<<"DONE", t>>) ELSE TRUE
           /\ i' = i + 1
           /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
