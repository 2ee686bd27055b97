----------------------------- MODULE TraceParse -----------------------------
(***************************************************************************)
(* Validates outcomes recorded from the real parser of key expressions.    *)
(***************************************************************************)
EXTENDS ParseSeq, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, m, ok
vars == <<t, l, m, ok>>

Init == t \in 1..Len(Scenarios) /\ l = 1 /\ m = InitParse(Scenarios[t].in) /\ ok = TRUE

Next ==
  /\ ok
  /\ LET S == Scenarios[t] IN
     /\ l <= Len(S.ev)
     /\ LET r == StepParse(m, S.ev[l])
            exp == ObsParse(r)
            good == exp = S.obs[l]
        IN /\ m' = r
           /\ ok' = good
           /\ IF ~good THEN PrintT("MISMATCH" \o ToString(<<t, l, exp>>))
              ELSE IF l = Len(S.ev) THEN PrintT(<<"DONE", t>>) ELSE TRUE
           /\ l' = l + 1
           /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
