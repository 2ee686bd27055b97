----------------------------- MODULE TraceStage -----------------------------
(***************************************************************************)
(* Validates histories recorded from the real engine: one scenario per     *)
(* line [cs |-> stages, ev |-> events, obs |-> observed].  *)
(* Every scenario ends with a DONE or a MISMATCH line.                     *)
(***************************************************************************)
EXTENDS MultiStage, TLC, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, ms, ok
vars == <<t, l, ms, ok>>


Init == t \in 1..Len(Scenarios) /\ l = 1 /\ ms = InitMulti(Scenarios[t].cs) /\ ok = TRUE

Next ==
  /\ ok
  /\ LET S == Scenarios[t] IN
     /\ l <= Len(S.ev)
     /\ LET r == StepEngine(S.cs, ms, S.ev[l])
            exp == Observed(r)
            good == exp = S.obs[l]
        IN /\ ms' = r[1]
           /\ ok' = good
           /\ IF ~good THEN PrintT("MISMATCH" \o ToString(<<t, l, exp>>))
              ELSE IF l = Len(S.ev) THEN PrintT(<<"DONE", t>>) ELSE TRUE
           /\ l' = l + 1
           /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
