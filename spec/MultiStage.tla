----------------------------- MODULE MultiStage -----------------------------
(***************************************************************************)
(* Stages connected in series. cs: sequence of stage configurations,       *)
(* ms: sequence of stage states.                                           *)
(***************************************************************************)
EXTENDS Stage

IsServerEvent(ev) == ev[1] = K_TIMEOUT \/ IsVirtual(ev[1]) \/ IsAction(ev[1])

InitMulti(cs) == [i \in 1..Len(cs) |-> InitStage(cs[i])]

\* feed the events q[p..] to one stage, server events bypass: <<state, out>>
FeedStage[c \in Any, st \in Any, q \in Any, p \in Any, dev \in Any, out \in Any] ==
  IF p > Len(q) THEN <<st, out>>
  ELSE IF IsServerEvent(q[p]) THEN FeedStage[c, st, q, p + 1, dev, Append(out, q[p])]
  ELSE LET r == StageUpdate[c, st, q[p], dev] IN FeedStage[c, r[1], q, p + 1, dev, out \o r[2]]

UpdateFrom[cs \in Any, ms \in Any, i \in Any, ev \in Any, dev \in Any, q \in Any] ==
  IF i > Len(cs) THEN <<ms, q>>
  ELSE IF i = 1 THEN
    LET r == StageUpdate[cs[1], ms[1], ev, dev]
    IN UpdateFrom[cs, [ms EXCEPT ![1] = r[1]], 2, ev, dev, r[2]]
  ELSE
    LET r0 == IF ev[1] = K_TIMEOUT \/ IsVirtual(ev[1]) THEN StageUpdate[cs[i], ms[i], ev, dev]
              ELSE <<ms[i], <<>>>>
        r == FeedStage[cs[i], r0[1], q, 1, dev, r0[2]]
    IN UpdateFrom[cs, [ms EXCEPT ![i] = r[1]], i + 1, ev, dev, r[2]]

\* <<states, emitted events>>
MultiUpdate[cs \in Any, ms \in Any, ev \in Any, dev \in Any] == UpdateFrom[cs, ms, 1, ev, dev, <<ev>>]

SetContextsFrom[cs \in Any, ms \in Any, i \in Any, offset \in Any, indices \in Any, q \in Any] ==
  IF i > Len(cs) THEN <<ms, q>>
  ELSE
    LET r0 == FeedStage[cs[i], ms[i], q, 1, NoDevice, <<>>]
        n == Len(cs[i])
        own == SelectSeq(indices, LAMBDA x : x >= offset /\ x < offset + n)
        r1 == StageSetContexts[cs[i], r0[1], [j \in 1..Len(own) |-> own[j] - offset]]
    IN SetContextsFrom[cs, [ms EXCEPT ![i] = r1[1]], i + 1, offset + n, indices, r0[2] \o r1[2]]

MultiSetContexts[cs \in Any, ms \in Any, indices \in Any] == SetContextsFrom[cs, ms, 1, 0, indices, <<>>]

MultiEvalDevices(cs, ms, descs) == [i \in 1..Len(cs) |-> EvalDevices[cs[i], ms[i], descs]]
MultiIsClear(ms) == \A i \in 1..Len(ms) : IsClear(ms[i])
MultiShouldExit(ms) == ms # <<>> /\ ShouldExit(ms[1])
MultiKeysDown(ms) == IF ms = <<>> THEN <<>> ELSE OutputKeysDown(Back(ms))
MultiValidate(ms, isDown) == IF ms = <<>> THEN ms ELSE [ms EXCEPT ![1] = StageValidate[@, isDown]]

\* one step of the environment: <<"k", key, state, value, device>>,
\* <<"c", contexts>>, <<"d", devices>>, <<"v", keys really down>>
StepEngine(cs, ms, ev) ==
  CASE ev[1] = "k" -> MultiUpdate[cs, ms, <<ev[2], ev[3], ev[4]>>, ev[5]]
    [] ev[1] = "c" -> MultiSetContexts[cs, ms, ev[2]]
    [] ev[1] = "d" -> <<MultiEvalDevices(cs, ms, ev[2]), <<>>>>
    [] ev[1] = "v" -> <<MultiValidate(ms, ToSet(ev[2])), <<>>>>

\* what is observed of a step r = <<states, emitted events>>
Observed(r) ==
  r[2] \o <<<<-1, IF MultiShouldExit(r[1]) THEN 1 ELSE 0>>, <<-2>> \o SortSeq(MultiKeysDown(r[1]), <)>>
=============================================================================
