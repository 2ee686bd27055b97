------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The server: owns the mapping engine, queues its output, waits for       *)
(* timeouts and delays, keeps the virtual keys and talks to the client.    *)
(*                                                                         *)
(* cf  list of configurations the client may send                          *)
(* s   state:                                                              *)
(*   c    index of the current configuration, 0 without one                *)
(*   ms   states of its stages            act  contexts set by the client  *)
(*   buf  output which was not sent yet   vk   virtual keys which are on   *)
(*   last last key event                  descs devices                    *)
(*   fl   ms until output continues, NONE when it is not delayed           *)
(*   tos  ms since an input timeout was requested, NONE without one        *)
(*   tom  its duration                    cou  cancelled by release too    *)
(*   nki  next key is to be reported      fail sending fails               *)
(*   bad  sending has failed              sending  is in progress          *)
(*   obs  observations of the current step                                 *)
(*   raw  output of the engine in the current step (for properties only)   *)
(*                                                                         *)
(* Observations: <<0, key, state, value>> key sent, <<1, n>> action        *)
(* reported, <<2, key, state>> virtual key reported, <<3, key, name...>>   *)
(* key info reported, <<4>> exit requested, <<5>> connection given up.     *)
(***************************************************************************)
EXTENDS MultiStage

NONE == -1
MaxTimeout == 4095
ActionBase == 61952

InitServer ==
  [c |-> 0, ms |-> <<>>, act |-> <<>>, buf |-> <<>>, vk |-> <<>>, last |-> NoEvent, descs |-> <<>>,
   fl |-> NONE, tos |-> NONE, tom |-> 0, cou |-> FALSE, nki |-> FALSE, fail |-> FALSE,
   sending |-> FALSE, bad |-> FALSE, obs |-> <<>>, raw |-> <<>>]

Config(cf, s) == IF s.c = 0 THEN <<>> ELSE cf[s.c]
Observe(s, o) == [s EXCEPT !.obs = Append(@, o)]
Queue(s, q) == [s EXCEPT !.buf = @ \o q, !.raw = @ \o q]
ScheduleFlush(s, delay) == IF s.fl # NONE THEN s ELSE [s EXCEPT !.fl = delay]
CancelTimeout(s) == [s EXCEPT !.tos = NONE, !.tom = 0]
Clamp(ms) == IF ms > MaxTimeout THEN MaxTimeout ELSE ms

HasDeviceFilters(cs) == \E i \in 1..Len(cs) : \E j \in 1..Len(cs[i]) : HasDeviceFilter(cs[i][j])

\* what is reported of a device
DeviceInfo(s, dev) ==
  IF dev >= 0 /\ dev < Len(s.descs) THEN s.descs[dev + 1].n \o <<-1>> \o s.descs[dev + 1].i ELSE <<-1>>

\* releases in the pending output, the keys may be down already
PendingReleases(q) == SelectSeq(q, LAMBDA e : IsDevice(e[1]) /\ ~IsWheel(e[1]) /\ e[2] = UP)

Releases(s) == [i \in 1..Len(MultiKeysDown(s.ms)) |-> Ev(MultiKeysDown(s.ms)[i], UP)]

\* repeats of a key are ignored while output is delayed or a timeout is pending
\* (steps of a wheel are alike without being repeats)
IsIgnored(s, ev) == ev = s.last /\ ~IsWheel(ev[1]) /\ (s.fl # NONE \/ s.tos # NONE)

\* Op selects the operation, since they are mutually recursive:
\*   "translate", x = <<event, device>>    "virtual", x = <<key, state>>
\*   "flush", x = <<>>                     "flushFrom", x = <<position, virtual keys toggled>>
\*   "contexts", x = <<indices>>           "devices", x = <<>>
\*   "reset", x = <<configuration>>
Srv[cf \in Any, op \in Any, s \in Any, x \in Any] ==
  CASE op = "translate" ->
    LET ev == x[1]
        dev == x[2]
        k == ev[1]
    IN
    IF IsIgnored(s, ev) THEN s
    ELSE IF s.nki /\ IsDevice(k) /\ k # 272 /\ ev[2] = DOWN
      THEN Observe([s EXCEPT !.nki = FALSE], <<3, k>> \o DeviceInfo(s, dev))
    ELSE
    LET s1 == IF s.tos # NONE /\ (ev[2] = DOWN \/ s.cou)
              THEN Srv[cf, "translate", CancelTimeout(s), <<<<K_TIMEOUT, UP, Clamp(s.tos)>>, dev>>]
              ELSE s
        s2 == IF IsWheel(k) /\ ev[2] = UP
              THEN Srv[cf, "translate", s1, <<<<k, DOWN, ev[3]>>, dev>>]
              ELSE s1
        s3 == IF k # K_TIMEOUT THEN [s2 EXCEPT !.last = ev] ELSE s2
        r == MultiUpdate[Config(cf, s3), s3.ms, ev, dev]
        s4 == [s3 EXCEPT !.ms = r[1]]
        request == r[2] # <<>> /\ Back(r[2])[1] = K_TIMEOUT
        s5 == IF request THEN [s4 EXCEPT !.tos = 0, !.tom = Back(r[2])[3], !.cou = Back(r[2])[2] \in {UP, NTUD}]
              ELSE s4
        out == IF request THEN SubSeq(r[2], 1, Len(r[2]) - 1) ELSE r[2]
        out2 == IF IsWheel(k)
                THEN [i \in 1..Len(out) |-> IF IsWheel(out[i][1]) /\ out[i][3] = 0
                                            THEN <<out[i][1], out[i][2], ev[3]>> ELSE out[i]]
                ELSE out
    IN IF MultiShouldExit(r[1]) THEN Observe(Srv[cf, "reset", s4, <<0>>], <<4>>)
       ELSE Queue(s5, out2)
  [] op = "virtual" ->
    LET k == x[1]
        on == Exists(s.vk, LAMBDA v : v = k)
        Report(t, st) == IF IsVirtual(k) THEN Observe(t, <<2, k, st>>) ELSE t
    IN IF ~on /\ x[2] # UP
       THEN Report(Srv[cf, "translate", [s EXCEPT !.vk = Append(@, k)], <<Ev(k, DOWN), AnyDevice>>], DOWN)
       ELSE IF on /\ x[2] # DOWN
       THEN Report(Srv[cf, "translate", [s EXCEPT !.vk = SelectSeq(@, LAMBDA v : v # k)], <<Ev(k, UP), AnyDevice>>], UP)
       ELSE s
  [] op = "flush" ->
    IF s.sending THEN s
    ELSE Srv[cf, "flushFrom", [s EXCEPT !.sending = TRUE, !.fl = NONE], <<1, 0>>]
  [] op = "flushFrom" ->
    LET i == x[1]
        toggled == x[2]
        Done(t, rest) == [t EXCEPT !.buf = rest, !.sending = FALSE]
    IN
    IF i > Len(s.buf) THEN Done(s, <<>>)
    ELSE
    LET e == s.buf[i] IN
    CASE IsWheel(e[1]) /\ e[2] = DOWN -> Srv[cf, "flushFrom", s, <<i + 1, toggled>>]
      [] IsAction(e[1]) ->
           Srv[cf, "flushFrom", IF e[2] = DOWN THEN Observe(s, <<1, e[1] - ActionBase>>) ELSE s, <<i + 1, toggled>>]
      [] IsVirtual(e[1]) ->
           IF e[2] # DOWN THEN Srv[cf, "flushFrom", s, <<i + 1, toggled>>]
           ELSE Srv[cf, "flushFrom", IF toggled + 1 < 10 THEN Srv[cf, "virtual", s, <<e[1], NOT>>] ELSE s,
                    <<i + 1, toggled + 1>>]
      [] e[1] = K_TIMEOUT -> Done(ScheduleFlush(s, e[3]), SubSeq(s.buf, i + 1, Len(s.buf)))
      [] OTHER ->
           IF s.fail THEN Done([s EXCEPT !.bad = TRUE], SubSeq(s.buf, i, Len(s.buf)))
           ELSE Srv[cf, "flushFrom", Observe(s, <<0, e[1], e[2], e[3]>>), <<i + 1, toggled>>]
  [] op = "contexts" ->
    LET r == MultiSetContexts[Config(cf, s), s.ms, x[1]]
        s1 == Queue([s EXCEPT !.ms = r[1], !.act = x[1]], r[2])
    IN IF s1.fl = NONE THEN Srv[cf, "flush", s1, <<>>] ELSE s1
  [] op = "devices" ->
    IF ~HasDeviceFilters(Config(cf, s)) \/ s.descs = <<>> THEN s
    ELSE Srv[cf, "contexts", [s EXCEPT !.ms = MultiEvalDevices(Config(cf, s), s.ms, s.descs)], <<s.act>>]
  [] op = "reset" ->
    \* what is due is still sent, delayed output is discarded but for the
    \* releases which are part of it
    LET s1 == IF s.fl = NONE \/ s.fl <= 0 THEN Srv[cf, "flush", s, <<>>] ELSE s
        rel == PendingReleases(s1.buf) \o Releases(s1)
        s2 == Srv[cf, "flush", [s1 EXCEPT !.buf = rel], <<>>]
        gone == SelectSeq(s2.vk, IsVirtual)
        s3 == [s2 EXCEPT !.obs = @ \o [j \in 1..Len(gone) |-> <<2, gone[j], UP>>], !.c = x[1], !.ms = InitMulti(IF x[1] = 0 THEN <<>> ELSE cf[x[1]]), !.act = <<>>,
                         !.buf = <<>>, !.vk = <<>>, !.last = NoEvent, !.fl = NONE, !.tos = NONE,
                         !.nki = (x[1] # 0) /\ @, !.bad = FALSE]
    IN Srv[cf, "devices", s3, <<>>]

RECURSIVE InjectInput(_, _, _)
InjectInput(cf, s, q) ==
  IF q = <<>> THEN s
  ELSE LET e == Head(q) IN
       InjectInput(cf, IF e[2] \in {UP, DOWN} /\ IsDevice(e[1]) THEN Srv[cf, "translate", s, <<e, NoDevice>>] ELSE s, Tail(q))

\* the end of an iteration of the main loop: what is due by now
Loop(cf, s) ==
  LET s1 == IF s.tos # NONE /\ s.tos >= s.tom
            THEN Srv[cf, "translate", CancelTimeout(s), <<<<K_TIMEOUT, UP, s.tom>>, AnyDevice>>]
            ELSE s
      s2 == IF s1.fl = NONE \/ s1.fl <= 0 THEN Srv[cf, "flush", s1, <<>>] ELSE s1
  IN IF s2.bad THEN Srv[cf, "reset", Observe(s2, <<5>>), <<0>>] ELSE s2

(***************************************************************************)
(* One step of the environment:                                            *)
(*   <<"k", key, state, value, device>>  key event of a device             *)
(*   <<"t", ms>> time passes       <<"cfg", n>> configuration n arrives    *)
(*   <<"disc">> connection lost    <<"c", contexts>> focus changed         *)
(*   <<"vk", key, state>> virtual key requested (NOT: toggle)              *)
(*   <<"v", keys down>> state is to be validated                           *)
(*   <<"nki">> next key info requested   <<"ii", q>>, <<"io", q>> injected *)
(*   <<"d", devices>> devices changed    <<"fail", 0/1>> sending fails     *)
(* Without a configuration no device is grabbed and no message but a       *)
(* configuration is expected.                                              *)
(***************************************************************************)
\* what is sent to the system and to the client is independent
ServerObs(s) ==
  SelectSeq(s.obs, LAMBDA o : o[1] = 0) \o SelectSeq(s.obs, LAMBDA o : o[1] # 0)
  \o <<<<9, s.fl, IF s.tos = NONE THEN NONE ELSE s.tom - s.tos>>>>

StepServer(cf, s0, ev) ==
  LET s == [s0 EXCEPT !.obs = <<>>, !.raw = <<>>, !.bad = FALSE]
      r == CASE s.c = 0 /\ ev[1] \notin {"cfg", "d", "fail"} -> s
             [] ev[1] = "k" -> Loop(cf, Srv[cf, "translate", s, <<<<ev[2], ev[3], ev[4]>>, ev[5]>>])
             [] ev[1] = "t" -> Loop(cf, [s EXCEPT !.fl = IF @ = NONE THEN NONE ELSE IF @ > ev[2] THEN @ - ev[2] ELSE 0,
                                                  !.tos = IF @ = NONE THEN NONE ELSE @ + ev[2]])
             [] ev[1] = "cfg" -> Srv[cf, "reset", s, <<ev[2]>>]
             [] ev[1] = "disc" -> Srv[cf, "reset", s, <<0>>]
             [] ev[1] = "c" -> Srv[cf, "contexts", s, <<ev[2]>>]
             [] ev[1] = "vk" -> LET t == Srv[cf, "virtual", s, <<ev[2], ev[3]>>]
                                IN IF t.fl = NONE THEN Srv[cf, "flush", t, <<>>] ELSE t
             [] ev[1] = "v" -> [s EXCEPT !.ms = MultiValidate(@, ToSet(ev[2]))]
             [] ev[1] = "nki" -> [s EXCEPT !.nki = TRUE]
             [] ev[1] = "ii" -> ScheduleFlush(InjectInput(cf, s, ev[2]), 0)
             [] ev[1] = "io" -> ScheduleFlush(Queue(s, ev[2]), 0)
             [] ev[1] = "d" -> Srv[cf, "devices", [s EXCEPT !.descs = ev[2]], <<>>]
             [] ev[1] = "fail" -> [s EXCEPT !.fail = (ev[2] = 1)]
  IN r
=============================================================================
