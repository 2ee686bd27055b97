-------------------------------- MODULE Stage --------------------------------
(***************************************************************************)
(* One mapping stage: a deterministic transducer from input events and     *)
(* context changes to emitted events.                                      *)
(*                                                                         *)
(* The configuration c is a sequence of contexts                           *)
(*   in   inputs  << [i |-> expression, o |-> output index] >>             *)
(*   out  outputs, cmd  << [o |-> output, x |-> negative index] >>         *)
(*   dn, di   device name / id filter     mf, inv   modifier filter        *)
(*   ft   falls through to the next context                                *)
(* Context and device indices are 0-based, as in the messages exchanged.   *)
(*                                                                         *)
(* The state st is a record                                                *)
(*   cc    contexts selected by the client      act  active contexts       *)
(*   bits  per context: accepted devices ({-1}: not restricted)            *)
(*   seq   pending input         mm   something might match                *)
(*   lp,lr last pressed/repeating device        hist typed so far ("?")    *)
(*   oor   outputs which follow on release      down keys held on output   *)
(*   to    <<>> or <<[e, t, m, x]>>: current timeout, its trigger key, the *)
(*         output it matched, whether a not-timeout was exceeded           *)
(*   anyk  keys unified with Any by the last comparison                    *)
(*   xp    position in exit sequence            tr   something reapplied   *)
(*   out   events emitted by the current step                              *)
(***************************************************************************)
EXTENDS Match

NoDevice  == -1
AnyDevice == -2
ExitSequence == <<K_SHIFTL, K_ESCAPE, K_K>>

InitStage(c) ==
  [cc |-> <<>>, act |-> <<>>, bits |-> [i \in 1..Len(c) |-> {NoDevice}],
   seq |-> <<>>, mm |-> FALSE, lp |-> NoDevice, lr |-> NoDevice, hist |-> <<>>,
   oor |-> <<>>, down |-> <<>>, to |-> <<>>, anyk |-> <<>>, xp |-> 0,
   tr |-> FALSE, out |-> <<>>]

IsNmm(input) == input # <<>> /\ input[1][2] = NMM
HasNmm(c) == \E i \in 1..Len(c) : \E j \in 1..Len(c[i].in) : IsNmm(c[i].in[j].i)

IsClear(st) == /\ st.down = <<>> /\ st.oor = <<>> /\ st.seq = <<>>
               /\ st.lr = NoDevice /\ st.hist = <<>> /\ ~st.mm /\ st.to = <<>>

ShouldExit(st) == st.xp = Len(ExitSequence)

OutputKeysDown(st) ==
  LET d == SelectSeq(st.down, LAMBDA o : IsDevice(o.k)) IN [i \in 1..Len(d) |-> d[i].k]

-----------------------------------------------------------------------------
(* Filters: a pattern list (alternatives of a regular expression or one    *)
(* exact text), texts are sequences of letters *)
FilterMatches(f, text, substring) ==
  (IF f.p = <<>> THEN TRUE
   ELSE IF f.rx THEN \E i \in 1..Len(f.p) : ContainsSub(text, f.p[i])
   ELSE IF substring THEN ContainsSub(text, f.p[1]) ELSE text = f.p[1]) # f.inv
HasDeviceFilter(ctx) == ctx.dn.p # <<>> \/ ctx.di.p # <<>>

\* descs: sequence of [n |-> name, i |-> id]
EvalDevices[c \in Any, st \in Any, descs \in Any] ==
  [st EXCEPT !.bits = [i \in 1..Len(c) |->
     IF HasDeviceFilter(c[i])
     THEN {d - 1 : d \in {x \in 1..Len(descs) :
             FilterMatches(c[i].dn, descs[x].n, FALSE) /\ FilterMatches(c[i].di, descs[x].i, FALSE)}}
     ELSE {NoDevice}]]

DeviceMatches(st, ci, dev) ==
  dev = AnyDevice \/ NoDevice \in st.bits[ci + 1] \/ dev \in st.bits[ci + 1]

-----------------------------------------------------------------------------
FallthroughContext[c \in Any, i \in Any] == IF c[i + 1].ft THEN FallthroughContext[c, i + 1] ELSE i

IsContextActive[c \in Any, st \in Any, ci \in Any] == \E i \in 1..Len(st.act) :
  st.act[i] = ci \/ FallthroughContext[c, st.act[i]] = ci

HasKey(q, k) == \E i \in 1..Len(q) : q[i][1] = k

ModifiersMatch(st, mf) ==
  \A i \in 1..Len(mf) : HasKey(st.seq, mf[i][1]) = (mf[i][2] # NOT)

\* the output of a mapping, identified by its position: <<context, index>>
\* index < 0: overridable command, the last active context wins
FindCommand[c \in Any, st \in Any, i \in Any, o \in Any] ==
  IF i = 0 THEN <<>>
  ELSE LET ci == FallthroughContext[c, st.act[i]]
           j == First(c[ci + 1].cmd, LAMBDA x : x.x = o)
       IN IF j # 0 THEN <<[id |-> <<ci, o>>, q |-> c[ci + 1].cmd[j].o]>>
          ELSE FindCommand[c, st, i - 1, o]
FindOutput[c \in Any, st \in Any, ci \in Any, o \in Any] ==
  IF o >= 0 THEN <<[id |-> <<ci, o>>, q |-> c[ci + 1].out[o + 1]]>>
  ELSE FindCommand[c, st, Len(st.act), o]

-----------------------------------------------------------------------------
(* Emitting events *)

Emit(st, ev) == [st EXCEPT !.out = Append(@, ev)]

\* press keys again, which were temporarily released, k itself last:
\* <<state, pressed k>>
Reapply[st \in Any, i \in Any, k \in Any, own \in Any] ==
  IF i > Len(st.down) THEN <<IF own THEN Emit(st, Ev(k, DOWN)) ELSE st, own>>
  ELSE LET o == st.down[i] IN
  IF o.te /\ ~o.su THEN
    LET st2 == [st EXCEPT !.down[i].te = FALSE, !.tr = TRUE]
    IN IF o.k = k THEN Reapply[st2, i + 1, k, TRUE]
       ELSE Reapply[Emit(st2, Ev(o.k, DOWN)), i + 1, k, own]
  ELSE IF /\ o.te /\ o.k = k /\ IsCommonModifier(k)
          /\ st.out # <<>> /\ st.out[Len(st.out)] = Ev(k, UP) THEN
    \* just released, simply undo
    <<[st EXCEPT !.out = Front(@), !.down[i].te = FALSE], TRUE>>
  ELSE Reapply[st, i + 1, k, own]

\* t: trigger key, cx: context of the output
UpdateOutput[st \in Any, ev \in Any, t \in Any, cx \in Any] ==
  LET k == ev[1]
      i == First(st.down, LAMBDA o : o.k = k)
  IN
  CASE ev[2] = UP ->
       IF i = 0 THEN st
       ELSE IF st.down[i].tw /\ IsVirtual(k) THEN
         Emit([st EXCEPT !.down[i].tw = FALSE], ev)
       ELSE IF st.down[i].tw /\ ~st.down[i].su THEN
         LET j == LastIdx(st.out, LAMBDA x : x[1] = k) IN
         [st EXCEPT !.down[i].tw = FALSE, !.out = IF j = 0 THEN @ ELSE RemoveAt(@, j)]
       ELSE IF st.down[i].t = t THEN
         Emit([st EXCEPT !.down = RemoveAt(@, i)], ev)
       ELSE Emit([st EXCEPT !.down[i].te = TRUE], ev)
    [] ev[2] = NOT ->
       IF i = 0 \/ IsVirtual(k) \/ IsAction(k) THEN st
       ELSE IF st.down[i].te THEN [st EXCEPT !.down[i].su = TRUE, !.down[i].tw = FALSE]
       ELSE Emit([st EXCEPT !.down[i].te = TRUE, !.down[i].su = TRUE, !.down[i].tw = FALSE], Ev(k, UP))
    [] ev[2] = DOWN ->
       LET r == Reapply[st, 1, k, FALSE]
           s2 == r[1]
       IN IF r[2] THEN s2
          ELSE IF i = 0 THEN
            Emit(IF k = K_TIMEOUT THEN s2
                 ELSE [s2 EXCEPT !.down = Append(@, [k |-> k, t |-> t, su |-> FALSE,
                         te |-> FALSE, tw |-> FALSE, cx |-> cx])], ev)
          ELSE IF s2.tr THEN
            [s2 EXCEPT !.down[i].te = FALSE, !.down[i].tw = FALSE,
                       !.out = @ \o <<Ev(k, UP), ev>>]
          ELSE Emit([s2 EXCEPT !.down[i].te = FALSE, !.down[i].tw = TRUE], ev)
    [] OTHER -> st

NotAll[st \in Any, i \in Any, t \in Any, cx \in Any] ==
  IF i > Len(st.down) THEN st
  ELSE NotAll[UpdateOutput[st, Ev(st.down[i].k, NOT), t, cx], i + 1, t, cx]

OutputAny[st \in Any, i \in Any, s \in Any, t \in Any, cx \in Any] ==
  IF i > Len(st.anyk) THEN st
  ELSE OutputAny[UpdateOutput[st, Ev(st.anyk[i], s), t, cx], i + 1, s, t, cx]

\* trg: the triggering event, id: of the output
ApplyOutput[st \in Any, q \in Any, p \in Any, trg \in Any, cx \in Any, id \in Any] ==
  IF p > Len(q) THEN st
  ELSE LET ev == q[p] IN
  IF ev[1] = K_ANY THEN
    ApplyOutput[IF ev[2] = NOT THEN NotAll[st, 1, trg[1], cx]
                ELSE OutputAny[st, 1, ev[2], trg[1], cx], q, p + 1, trg, cx, id]
  ELSE IF ev[2] = OOR THEN
    IF trg[2] = DOWN THEN
      [st EXCEPT !.oor = Append(@, [t |-> trg[1], q |-> SubSeq(q, p + 1, Len(q)), cx |-> cx, id |-> id])]
    ELSE ApplyOutput[st, q, p + 1, trg, cx, id]
  ELSE IF ev[2] = NOT /\ IsVirtual(ev[1]) THEN
    ApplyOutput[IF HasKey(st.seq, ev[1]) THEN UpdateOutput[st, Ev(ev[1], DOWN), trg[1], cx]
                ELSE st, q, p + 1, trg, cx, id]
  ELSE ApplyOutput[UpdateOutput[st, ev, trg[1], cx], q, p + 1, trg, cx, id]

EmitUps[out \in Any, rel \in Any] ==  \* in reverse order
  IF rel = <<>> THEN out
  ELSE EmitUps[IF Back(rel).te THEN out ELSE Append(out, Ev(Back(rel).k, UP)), Front(rel)]

\* release everything triggered by a key (ContextActive: of one context)
ReleaseTriggered[st \in Any, k \in Any, ci \in Any] ==
  LET IsRel(o) == o.t = k /\ (k # K_CTX \/ o.cx = ci)
      rel == SelectSeq(st.down, IsRel)
      st2 == IF rel = <<>> THEN st
             ELSE [st EXCEPT !.down = SelectSeq(@, LAMBDA o : ~IsRel(o)),
                             !.out = EmitUps[@, rel]]
  IN IF st2.to # <<>> /\ st2.to[1].t = k THEN [st2 EXCEPT !.to = <<>>] ELSE st2

\* <<state, continue>>
ContinueOutputOnRelease[st \in Any, ev \in Any, ci \in Any] ==
  LET i == First(st.oor, LAMBDA o : o.t = ev[1] /\ (o.t # K_CTX \/ o.cx = ci)) IN
  IF i = 0 THEN <<st, TRUE>>
  ELSE IF ev[2] = DOWN THEN <<st, FALSE>>
  ELSE LET st2 == ApplyOutput[st, st.oor[i].q, 1, ev, st.oor[i].cx, st.oor[i].id]
       IN ContinueOutputOnRelease[[st2 EXCEPT !.oor = RemoveAt(@, i)], ev, ci]

-----------------------------------------------------------------------------
(* Contexts *)

ContextActiveInput(c, ci) == First(c[ci + 1].in, LAMBDA x : x.i[1][1] = K_CTX)

OnContextActive[c \in Any, st \in Any, s \in Any, ci \in Any] ==
  LET j == ContextActiveInput(c, ci) IN
  IF j = 0 THEN st
  ELSE IF s = DOWN THEN
    LET o == FindOutput[c, st, ci, c[ci + 1].in[j].o]
    IN IF o = <<>> THEN st ELSE ApplyOutput[st, o[1].q, 1, Ev(K_CTX, DOWN), ci, o[1].id]
  ELSE ReleaseTriggered[ContinueOutputOnRelease[st, Ev(K_CTX, UP), ci][1], K_CTX, ci]

ToggleContexts[c \in Any, st \in Any, q \in Any, s \in Any, other \in Any] ==
  IF q = <<>> THEN st
  ELSE ToggleContexts[c, IF Contains(other, Head(q)) THEN st ELSE OnContextActive[c, st, s, Head(q)],
         Tail(q), s, other]

ComputeActive[c \in Any, st \in Any, q \in Any, act \in Any] ==
  IF q = <<>> THEN act
  ELSE LET i == Head(q)
           ctx == c[i + 1]
           ok == /\ ModifiersMatch(st, ctx.mf) # ctx.inv
                 /\ ~HasDeviceFilter(ctx) \/ st.bits[i + 1] # {}
           f == FallthroughContext[c, i]
       IN ComputeActive[c, st, Tail(q),
            IF ok /\ (act = <<>> \/ Back(act) # f) THEN Append(act, f) ELSE act]

UpdateActiveContexts[c \in Any, st \in Any] ==
  LET act == ComputeActive[c, st, st.cc, <<>>] IN
  IF act = st.act THEN st
  ELSE LET prev == st.act
           st1 == ToggleContexts[c, [st EXCEPT !.act = act], prev, UP, act]
       IN ToggleContexts[c, st1, act, DOWN, prev]

SetActiveClientContexts[c \in Any, st \in Any, indices \in Any] ==
  LET st1 == UpdateActiveContexts[c, [st EXCEPT !.cc = indices]] IN
  [st1 EXCEPT !.oor = SelectSeq(@, LAMBDA o : IsContextActive[c, st1, o.cx])]

-----------------------------------------------------------------------------
(* Input *)

AdvanceExit[st \in Any, ev \in Any] ==
  IF ~IsKeyboard(ev[1]) THEN st
  ELSE IF ev[2] = DOWN /\ st.xp > 0 /\ ev[1] = ExitSequence[IF st.xp > 0 THEN st.xp ELSE 1] THEN st
  ELSE IF /\ ev[2] = DOWN /\ st.xp < Len(ExitSequence) /\ ev[1] = ExitSequence[st.xp + 1]
       THEN [st EXCEPT !.xp = @ + 1]
  ELSE [st EXCEPT !.xp = 0]

TriggerEvent[input \in Any] ==
  LET i == LastIdx(input, IsNonOptional) IN IF i # 0 THEN input[i] ELSE Back(input)

NoMatchResult(st) == [st |-> st, r |-> NO_MATCH, out |-> <<>>, trg |-> NoEvent, cx |-> 0, n |-> 0]

\* compare q with the mappings of the active contexts, starting with
\* input j of the i-th active context
MatchInput[c \in Any, st \in Any, first \in Any, q \in Any, dev \in Any, isUp \in Any, i \in Any, j \in Any] ==
  IF i > Len(st.act) THEN NoMatchResult(st)
  ELSE LET ci == st.act[i]
           ctx == c[ci + 1]
  IN
  IF j > Len(ctx.in) \/ (j = 1 /\ ~DeviceMatches(st, ci, dev)) THEN
    MatchInput[c, st, first, q, dev, isUp, i + 1, 1]
  ELSE
  LET input == ctx.in[j].i
      nmm == IsNmm(input)
  IN
  IF nmm /\ (~first \/ st.hist = <<>> \/ dev = AnyDevice) THEN
    MatchInput[c, st, first, q, dev, isUp, i, j + 1]
  ELSE
  LET r == Match[input, IF nmm THEN st.hist ELSE q]
      st1 == [st EXCEPT !.anyk = r[2]]
  IN
  IF r[1] = MIGHT /\ first /\ ~nmm THEN
    LET d == LastIdx(q, LAMBDA x : x[2] = DOWN \/ x[2] = DOWNM)
        st2 == IF r[3][1] # K_TIMEOUT THEN st1
               ELSE IF d = 0 THEN Emit(st1, r[3])
               ELSE IF st1.to = <<>> \/ st1.to[1].e # r[3] \/ st1.to[1].t # q[d][1] THEN
                 [Emit(st1, r[3]) EXCEPT !.to = <<[e |-> r[3], t |-> q[d][1], m |-> <<>>, x |-> FALSE]>>]
               ELSE IF isUp THEN st1  \* timeout did not change
               ELSE Emit(st1, r[3])
    IN [st |-> st2, r |-> MIGHT, out |-> <<>>, trg |-> TriggerEvent[input], cx |-> ci, n |-> Len(q)]
  ELSE IF r[1] = MATCH THEN
    LET o == FindOutput[c, st1, ci, ctx.in[j].o] IN
    IF o # <<>> THEN
      [st |-> st1, r |-> MATCH, out |-> o, trg |-> TriggerEvent[input], cx |-> ci, n |-> Len(q)]
    ELSE MatchInput[c, st1, first, q, dev, isUp, i, j + 1]
  ELSE MatchInput[c, st1, first, q, dev, isUp, i, j + 1]

\* look for an exact match of the beginning of the sequence, longest first
MatchStart[c \in Any, st \in Any, q \in Any, dev \in Any, isUp \in Any] ==
  IF Len(q) <= 1 THEN NoMatchResult(st)
  ELSE LET q2 == Front(q) IN
  IF ~Exists(q2, LAMBDA x : x[2] = DOWN) THEN NoMatchResult(st)
  ELSE LET m == MatchInput[c, st, FALSE, q2, dev, isUp, 1, 1] IN
  IF m.r = MATCH THEN m
  ELSE MatchStart[c, m.st, q2, dev, isUp]

IsPhysicallyPressed(st, k) ==
  LET i == LastIdx(st.seq, LAMBDA x : x[1] = k) IN i # 0 /\ st.seq[IF i = 0 THEN 1 ELSE i][2] # UP

ForwardFrom[st \in Any, i \in Any] ==
  IF i > Len(st.seq) THEN st
  ELSE LET ev == st.seq[i] IN
  IF ev[2] = DOWN \/ ev[2] = DOWNM THEN
    IF \E j \in i..Len(st.seq) : st.seq[j] = Ev(ev[1], UP) THEN
      \* press and release are both pending: forward the press now
      [UpdateOutput[st, ev, ev[1], -1] EXCEPT !.seq = RemoveAt(@, i)]
    ELSE IF ev[2] = DOWN THEN
      LET st2 == IF st.to = <<>> \/ st.to[1].m = <<>> THEN UpdateOutput[st, ev, ev[1], -1] ELSE st
      IN [st2 EXCEPT !.seq[i] = <<ev[1], DOWNM, ev[3]>>]
    ELSE ForwardFrom[st, i + 1]
  ELSE [ReleaseTriggered[st, ev[1], -1] EXCEPT !.seq = RemoveAt(@, i)]

\* the first n events were used: drop completed strokes, keep what is still held
FinishSequence[q \in Any, i \in Any, n \in Any] ==
  IF i > n THEN q
  ELSE LET ev == q[i] IN
  IF (ev[2] = DOWN \/ ev[2] = DOWNM) /\ ~\E j \in i..Len(q) : q[j] = Ev(ev[1], UP) THEN
    FinishSequence[[q EXCEPT ![i] = <<ev[1], DOWNM, ev[3]>>], i + 1, n]
  ELSE IF ev[2] # DOWN /\ ev[2] # DOWNM /\ ev[1] = K_TIMEOUT THEN
    FinishSequence[[q EXCEPT ![i] = <<ev[1], UPM, ev[3]>>], i + 1, n]
  ELSE FinishSequence[RemoveAt(q, i), i, n - 1]

MainLoop[c \in Any, st \in Any, ev \in Any, dev \in Any] ==
  IF ~Exists(st.seq, IsNonOptional) THEN st
  ELSE
  LET isUp == ev[2] = UP /\ ev[1] # K_TIMEOUT
      m0 == MatchInput[c, st, TRUE, st.seq, dev, isUp, 1, 1]
  IN
  IF IsVirtual(ev[1]) /\ m0.r # MATCH THEN
    [m0.st EXCEPT !.seq = FinishSequence[@, 1, Len(@)]]
  ELSE IF m0.r = MIGHT THEN [m0.st EXCEPT !.mm = TRUE]
  ELSE
  LET m1 == IF m0.r = NO_MATCH /\ m0.st.mm THEN MatchStart[c, m0.st, m0.st.seq, dev, isUp]
            ELSE m0
      startOnly == m0.r = NO_MATCH /\ m1.r = MATCH
      s1 == m1.st
      \* a timeout which already matched only matches the same again
      hasTo == s1.to # <<>>
      notTo == hasTo /\ IsNotTimeout(s1.to[1].e[2])
      r2 == IF /\ hasTo /\ ~notTo /\ ev[1] = K_TIMEOUT /\ m1.r = MATCH
               /\ s1.to[1].m # <<>> /\ s1.to[1].m # m1.out[1].id
            THEN NO_MATCH ELSE m1.r
      s2 == IF hasTo /\ ~notTo THEN
              IF ev[1] = K_TIMEOUT THEN
                IF m1.r = MATCH /\ s1.to[1].m = <<>> /\ ~startOnly
                THEN [s1 EXCEPT !.to[1].m = m1.out[1].id] ELSE s1
              ELSE IF m1.r = NO_MATCH THEN [s1 EXCEPT !.to[1].m = <<>>] ELSE s1
            ELSE IF notTo /\ r2 = NO_MATCH THEN [s1 EXCEPT !.to[1].x = TRUE]
            ELSE s1
  IN
  IF r2 = MATCH THEN
    LET q == m1.out[1].q
        t1 == IF m1.trg[1] = K_ANY \/ ev[1] = K_TIMEOUT THEN ev ELSE m1.trg
        t2 == IF t1[1] = K_TIMEOUT /\ s2.to # <<>> THEN Ev(s2.to[1].t, DOWN) ELSE t1
        keep == Len(q) = 1 /\ q[1] = t2 /\ Contains(s2.seq, Ev(t2[1], UP))
        t3 == IF ~IsPhysicallyPressed(s2, t2[1]) /\ ~keep THEN ev ELSE t2
        \* ignore repeated match while rest of output is pending
        pending == Exists(s2.oor, LAMBDA o : o.t = t3[1] /\ o.id = m1.out[1].id)
        s3 == IF pending THEN s2 ELSE ApplyOutput[s2, q, 1, t3, m1.cx, m1.out[1].id]
        s4 == [s3 EXCEPT !.seq = FinishSequence[@, 1, m1.n]]
    IN MainLoop[c, IF startOnly THEN s4 ELSE [s4 EXCEPT !.mm = FALSE], ev, dev]
  ELSE
    LET s3 == ForwardFrom[s2, 1]
        s4 == IF s3.mm /\ ~Exists(s3.seq, IsNonOptional) THEN [s3 EXCEPT !.mm = FALSE] ELSE s3
    IN MainLoop[c, s4, ev, dev]

CleanUpHistory[c \in Any, st \in Any] ==
  IF st.hist = <<>> THEN st
  ELSE LET ev == st.hist[1]
           up == <<ev[1], UP, ev[3]>>
  IN
  IF ~Contains(st.hist, up) THEN st
  ELSE IF \E i \in 1..Len(st.act) : \E j \in 1..Len(c[st.act[i] + 1].in) :
            LET input == c[st.act[i] + 1].in[j].i
            IN IsNmm(input) /\ Match[Tail(input), st.hist][1] = MIGHT THEN st
  ELSE LET h == Tail(st.hist)
       IN CleanUpHistory[c, [st EXCEPT !.hist = RemoveAt(h, First(h, LAMBDA x : x = up))]]

DropMatchedTimeouts[q \in Any] == IF q # <<>> /\ q[1][2] = UPM THEN DropMatchedTimeouts[Tail(q)] ELSE q

AddToHistory[c \in Any, st \in Any, ev \in Any] ==
  IF ~HasNmm(c) \/ IsVirtual(ev[1]) \/ ev[1] = K_TIMEOUT THEN st
  ELSE LET i == LastIdx(st.hist, LAMBDA x : x[1] = ev[1])
           isDown == i # 0 /\ st.hist[IF i = 0 THEN 1 ELSE i][2] = DOWN
       IN IF (ev[2] = DOWN) # isDown THEN [st EXCEPT !.hist = Append(@, ev)] ELSE st

\* processing after the event was accepted (not an ignored repeat)
Process[c \in Any, st \in Any, ev \in Any, dev \in Any] ==
  LET s1 == AddToHistory[c, [st EXCEPT !.seq = Append(@, ev)], ev]
      s2 == UpdateActiveContexts[c, s1]
      s3 == IF ev[2] = UP /\ s2.to # <<>> /\ s2.to[1].m # <<>>
            THEN [s2 EXCEPT !.seq = TLCEval([i \in 1..Len(s2.seq) |->
                    LET x == s2.seq[i] IN IF x[2] = DOWN THEN <<x[1], DOWNM, x[3]>> ELSE x])]
            ELSE s2
      s4 == IF ev[2] = UP /\ ~s3.mm THEN
              LET i == First(s3.seq, LAMBDA x : x[1] = ev[1])
              IN IF s3.seq[i][2] = DOWNM THEN [s3 EXCEPT !.seq = RemoveAt(@, i)] ELSE s3
            ELSE s3
      s5 == IF Exists(s4.down, LAMBDA o : o.su)
            THEN [s4 EXCEPT !.down = TLCEval([i \in 1..Len(s4.down) |-> [s4.down[i] EXCEPT !.su = FALSE]])]
            ELSE s4
      s6 == MainLoop[c, s5, ev, dev]
      s7 == IF ev[2] = UP THEN ReleaseTriggered[s6, ev[1], -1] ELSE s6
      s8 == UpdateActiveContexts[c, s7]
      s9 == [s8 EXCEPT !.seq = DropMatchedTimeouts[@], !.tr = FALSE]
      s10 == IF s9.seq = <<>> THEN [s9 EXCEPT !.to = <<>>] ELSE s9
  IN CleanUpHistory[c, s10]

ApplyInput[c \in Any, st0 \in Any, ev \in Any, dev \in Any] ==
  LET r == ContinueOutputOnRelease[st0, ev, -1]
      st == r[1]
  IN
  IF ~r[2] THEN st
  ELSE
  LET notTo == st.to # <<>> /\ IsNotTimeout(st.to[1].e[2])
      isTo == ev[1] = K_TIMEOUT
  IN
  IF notTo /\ isTo /\ st.to[1].e[3] # ev[3] /\ st.to[1].x THEN st
  ELSE
  LET s1 == IF notTo /\ isTo /\ st.to[1].e[3] = ev[3] THEN [st EXCEPT !.to[1].x = TRUE]
            ELSE IF notTo /\ ~isTo /\ ev[2] = UP /\ st.to[1].t = ev[1] THEN [st EXCEPT !.to[1].x = FALSE]
            ELSE st
  IN
  IF ev[2] = DOWN THEN
    LET i == LastIdx(s1.seq, LAMBDA x : x[1] = ev[1]) IN
    IF i # 0 /\ s1.seq[IF i = 0 THEN 1 ELSE i][2] # UP THEN
      IF s1.mm THEN s1
      ELSE LET s2 == IF dev # NoDevice /\ dev = s1.lp THEN [s1 EXCEPT !.lr = dev] ELSE s1
           IN IF dev # NoDevice /\ dev # s2.lr THEN s2
              ELSE Process[c, [s2 EXCEPT !.seq = RemoveAt(@, i)], ev, dev]
    ELSE Process[c, IF dev = NoDevice THEN s1
                    ELSE [s1 EXCEPT !.lp = dev, !.lr = IF dev = @ THEN NoDevice ELSE @], ev, dev]
  ELSE Process[c, IF dev = s1.lr THEN [s1 EXCEPT !.lr = NoDevice] ELSE s1, ev, dev]

\* <<state, emitted events>>
TakeOut(st) == <<[st EXCEPT !.out = <<>>], st.out>>
StageUpdate[c \in Any, st \in Any, ev \in Any, dev \in Any] == TakeOut(ApplyInput[c, AdvanceExit[st, ev], ev, dev])
StageSetContexts[c \in Any, st \in Any, indices \in Any] == TakeOut(SetActiveClientContexts[c, st, indices])

\* forget everything about keys which are not really down
StageValidate[st \in Any, isDown \in Any] ==
  [st EXCEPT !.mm = FALSE,
     !.seq = SelectSeq(@, LAMBDA x : ~(IsDevice(x[1]) /\ x[1] \notin isDown)),
     !.down = SelectSeq(@, LAMBDA o : ~(IsDevice(o.k) /\ o.t \notin isDown))]
=============================================================================
