----------------------------- MODULE TraceLink -----------------------------
(***************************************************************************)
(* Validates histories recorded from the real ends of a connection.        *)
(***************************************************************************)
EXTENDS Link, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, l, ok
vars == <<t, i, l, ok>>

Init == t \in 1..Len(Scenarios) /\ i = 1 /\ l = InitLink /\ ok = TRUE

Next ==
  /\ ok
  /\ LET S == Scenarios[t] IN
     /\ i <= Len(S.ev)
     /\ LET r == StepLink(S, l, S.ev[i])
            good == Possible(S, l, S.ev[i]) /\ r[1] = S.obs[i]
        IN /\ l' = r[2]
           /\ ok' = good
           /\ IF ~good THEN PrintT("MISMATCH" \o ToString(<<t, i, r[1]>>))
              ELSE IF i = Len(S.ev) THEN PrintT(<<"DONE", t>>) ELSE TRUE
           /\ i' = i + 1
           /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
