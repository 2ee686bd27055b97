---------------------------- MODULE TraceServer ----------------------------
(***************************************************************************)
(* Validates histories recorded from the real server state machine.        *)
(***************************************************************************)
EXTENDS Server, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, s, ok
vars == <<t, l, s, ok>>

Init == t \in 1..Len(Scenarios) /\ l = 1 /\ s = InitServer /\ ok = TRUE

Next ==
  /\ ok
  /\ LET S == Scenarios[t] IN
     /\ l <= Len(S.ev)
     /\ LET r == StepServer(S.cfgs, s, S.ev[l])
            exp == ServerObs(r)
            good == exp = S.obs[l]
        IN /\ s' = r
           /\ ok' = good
           /\ IF ~good THEN PrintT("MISMATCH" \o ToString(<<t, l, exp>>))
              ELSE IF l = Len(S.ev) THEN PrintT(<<"DONE", t>>) ELSE TRUE
           /\ l' = l + 1
           /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
