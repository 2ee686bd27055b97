-------------------------------- MODULE Match --------------------------------
(***************************************************************************)
(* Comparison of an input expression with the pending input sequence.      *)
(*                                                                         *)
(* Match(expr, seq) yields <<result, anyKeys, timeoutEvent>>: whether the  *)
(* whole sequence satisfies the expression, might still satisfy it, or can *)
(* not; the keys which were unified with Any; and the timeout which has to *)
(* elapse next (when the result depends on it).                            *)
(***************************************************************************)
EXTENDS Keys

NO_MATCH == 0
MIGHT    == 1
MATCH    == 2

NormState(s) == IF s = DOWNM THEN DOWN ELSE IF s = UPM THEN UP ELSE s

UnifKey(a, b) ==
  /\ a # K_NONE /\ b # K_NONE
  /\ \/ a = b
     \/ /\ a # K_TIMEOUT /\ b # K_TIMEOUT
        /\ (a = K_ANY /\ IsKeyboard(b)) \/ (b = K_ANY /\ IsKeyboard(a))

\* se: timeout reported with the time really elapsed, ee: the one expected
UnifTimeout(se, ee) ==
  LET reached == se[3] >= ee[3]
  IN IF IsNotTimeout(se[2]) \/ IsNotTimeout(ee[2]) THEN ~reached ELSE reached

Unif(a, b) ==
  /\ ~(a[1] = K_ANY /\ b[2] = DOWNM)
  /\ ~(b[1] = K_ANY /\ a[2] = DOWNM)
  /\ UnifKey(a[1], b[1])
  /\ IF a[1] = K_TIMEOUT THEN UnifTimeout(a, b)
     ELSE NormState(a[2]) = NormState(b[2])

\* async: keys which are allowed to be pressed/released meanwhile
\* nots:  keys which must not be pressed
\* ign:   keys at the front of the history which are skipped ("?" mappings)
MatchLoop[expr \in Any, seq \in Any, e \in Any, s \in Any, async \in Any, nots \in Any, ign \in Any, anyk \in Any, nmm \in Any] ==
  IF e > Len(expr) /\ s > Len(seq) THEN <<MATCH, anyk, NoEvent>>
  ELSE
  LET se == IF s <= Len(seq) THEN seq[s] ELSE NoEvent
      ee == IF e <= Len(expr) THEN expr[e] ELSE NoEvent
      nots2 == IF ee[2] = DOWN THEN nots \ {ee[1]} ELSE nots
  IN
  IF (se[2] = DOWN \/ se[2] = DOWNM) /\ se[1] \in nots2 THEN
    <<NO_MATCH, anyk, NoEvent>>
  ELSE IF ee[2] = DOWNA \/ ee[2] = UPA THEN
    MatchLoop[expr, seq, e + 1, s, Append(async, ee), nots2, ign, anyk, nmm]
  ELSE IF ee[2] = NOT /\ ee[1] # K_TIMEOUT THEN
    MatchLoop[expr, seq, e + 1, s, async, nots2 \cup {ee[1]}, ign, anyk, nmm]
  ELSE IF ee[1] = K_ANY /\ ee[2] = UP /\ se[1] # K_NONE /\ se[2] = UP THEN
    IF ~Contains(anyk, se[1]) THEN <<NO_MATCH, anyk, NoEvent>>
    ELSE MatchLoop[expr, seq, e + 1, s + 1, async, nots2, ign, anyk, nmm]
  ELSE IF Unif(se, ee) THEN
    MatchLoop[expr, seq, e + 1, s + 1,
      IF async = <<>> THEN async ELSE SelectSeq(async, LAMBDA a : a[1] # se[1]), nots2, ign,
      IF ee[1] = K_ANY /\ se[2] = DOWN THEN Append(anyk, se[1]) ELSE anyk, nmm]
  ELSE IF ee[1] = K_TIMEOUT /\ se = NoEvent THEN
    <<MIGHT, anyk, ee>>
  ELSE IF ee[2] = NMM THEN
    MatchLoop[expr, seq, e + 1, s, async, nots2, ign, anyk, TRUE]
  ELSE IF nmm /\ ee = NoEvent THEN
    <<NO_MATCH, anyk, NoEvent>>
  ELSE
  LET wanted == IF se[2] = UP THEN UPA ELSE DOWNA
      i == IF async = <<>> \/ se[1] = K_NONE THEN 0
           ELSE First(async, LAMBDA a : a[2] = wanted /\ UnifKey(se[1], a[1]))
  IN
  IF i # 0 THEN  \* the sequence event is one of the optional ones
    MatchLoop[expr, seq, e, s + 1, [async EXCEPT ![i] = <<@[1], se[2], @[3]>>],
      nots2, ign, anyk, nmm]
  ELSE IF se[2] = DOWNM \/ se[2] = UPM THEN  \* already matched before
    MatchLoop[expr, seq, e, s + 1, async, nots2, ign, anyk, nmm]
  ELSE
  LET j == IF async = <<>> \/ ee[1] = K_NONE THEN 0 ELSE First(async, LAMBDA a : Unif(ee, a)) IN
  IF j # 0 THEN  \* the expression event already happened as an optional one
    MatchLoop[expr, seq, e + 1, s, RemoveAt(async, j), nots2, ign, anyk, nmm]
  ELSE
  LET d == IF async = <<>> \/ ee[2] # DOWN THEN 0 ELSE First(async, LAMBDA a : a = <<ee[1], DOWNA, 0>>) IN
  IF d > 1 /\ async[IF d > 1 THEN d - 1 ELSE 1] = <<ee[1], UPA, 0>> THEN
    \* did not matter whether the key was released in between
    MatchLoop[expr, seq, e + 1, s, async, nots2, ign, anyk, nmm]
  ELSE IF /\ se[1] = K_TIMEOUT /\ ee[1] # K_TIMEOUT
          /\ \E x \in 1..(s - 1) : seq[x][2] = DOWN THEN
    \* surplus timeout after something already matched
    MatchLoop[expr, seq, e, s + 1, async, nots2, ign, anyk, nmm]
  ELSE IF nmm /\ e = 2 THEN
    IF se # NoEvent THEN  \* skip unrelated events at the front
      MatchLoop[expr, seq, e, s + 1, async, nots2,
        IF se[2] = DOWN THEN ign \cup {se[1]} ELSE ign, anyk, nmm]
    ELSE <<NO_MATCH, anyk, NoEvent>>
  ELSE IF nmm /\ se[2] = UP /\ se[1] \in ign THEN
    MatchLoop[expr, seq, e, s + 1, async, nots2, ign, anyk, nmm]
  ELSE <<IF s > Len(seq) THEN MIGHT ELSE NO_MATCH, anyk, NoEvent>>

Match[expr \in Any, seq \in Any] == MatchLoop[expr, seq, 1, 1, <<>>, {}, {}, <<>>, FALSE]
=============================================================================
