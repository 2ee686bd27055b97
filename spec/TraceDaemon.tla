---------------------------- MODULE TraceDaemon ----------------------------
(***************************************************************************)
(* Validates histories recorded from the real server program.              *)
(***************************************************************************)
EXTENDS Daemon, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, w, ok
vars == <<t, l, w, ok>>

Init == t \in 1..Len(Scenarios) /\ l = 1 /\ w = InitDaemon(Scenarios[t]) /\ ok = TRUE

Next ==
  /\ ok
  /\ LET S == Scenarios[t] IN
     /\ l <= Len(S.ev)
     /\ LET r == StepDaemon(S, w, S.ev[l])
            exp == DaemonObs(S, r)
            good == exp = S.obs[l]
        IN /\ w' = r
           /\ ok' = good
           /\ IF ~good THEN PrintT("MISMATCH" \o ToString(<<t, l, exp>>))
              ELSE IF l = Len(S.ev) THEN PrintT(<<"DONE", t>>) ELSE TRUE
           /\ l' = l + 1
           /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
