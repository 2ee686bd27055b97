------------------------------- MODULE Daemon -------------------------------
(***************************************************************************)
(* The server program with its devices: which devices are grabbed, what    *)
(* their events lead to and what is seen of the virtual devices.           *)
(*                                                                         *)
(* S  scenario: cfgs configurations, gf their grab filters, devs devices   *)
(*    [id event number, n name, i id, ok supported, keys ranges of codes,  *)
(*     rel, sw, msc, props codes, abs axes <<code, minimum, maximum, ...>>, *)
(*     ids vendor/product/version, rep autorepeat]                         *)
(* w  state:                                                               *)
(*   s   the server's state (see Server)   on   a client is connected      *)
(*   gf  grab filters of the client        pl   devices plugged in         *)
(*   ph  keys held of each device                                          *)
(*   gr  devices grabbed, by index         vd   virtual devices            *)
(*   lam mouse which was active last (0 without one)                       *)
(*   ended  the program has ended                                          *)
(*   pk  packets, ms reports to the client, cr virtual devices created in  *)
(*       the current step                                                  *)
(* A virtual device has the number of the device whose events it forwards, *)
(* 0 is the keyboard. Of each [kd keys down, pend events of the next       *)
(* packet, av, ah vertical and horizontal wheel motion below a detent].    *)
(*                                                                         *)
(* Observations: <<60, v, type, code, value, ...>> packet of events,       *)
(* <<1 .. 3, ...>> reports (see Server), <<5>> connection closed,          *)
(* <<53, v, ...>> forward device created, <<51, d...>> devices grabbed,    *)
(* <<52, v...>> virtual devices, <<70>> the program has ended.             *)
(***************************************************************************)
EXTENDS Server

EV_SYN == 0
EV_KEY == 1
EV_REL == 2
EV_ABS == 3
EV_MSC == 4
EV_SW  == 5
REL_HWHEEL == 6
REL_WHEEL  == 8
REL_WHEEL_HI  == 11
REL_HWHEEL_HI == 12
ABS_VOLUME == 32
ABS_MISC   == 40
DETENT == 120

InitDaemon(S) ==
  [s |-> [InitServer EXCEPT !.fail = TRUE], on |-> FALSE, gf |-> <<>>, pl |-> {}, ph |-> [d \in 1..Len(S.devs) |-> {}], gr |-> <<>>, vd |-> <<>>, lam |-> 0,
   ended |-> FALSE, pk |-> <<>>, ms |-> <<>>, cr |-> {}]

-----------------------------------------------------------------------------
(* devices *)

Sorted(set) == SetToSortSeq(set, LAMBDA a, b : a < b)
HasCode(q, c) == \E i \in 1..Len(q) : q[i] = c
HasAxis(D, c) == \E i \in 1..Len(D.abs) : D.abs[i][1] = c
DeviceHasKey(D, k) == \E i \in 1..Len(D.keys) : D.keys[i][1] <= k /\ k <= D.keys[i][2]
NumKeys(D) == FoldLeft(LAMBDA n, r : n + r[2] - r[1] + 1, 0, D.keys)
HasMouseAxes(D) == HasCode(D.rel, 0) \/ HasCode(D.rel, 1)
\* other than the volume knobs of keyboards
HasUncommonAxes(D) == \E i \in 1..Len(D.abs) : D.abs[i][1] \notin {ABS_VOLUME, ABS_MISC}

Suffix == <<10, 4, 24, 12, 0, 15, 15, 4, 17>>
\* devices of the server itself
IsOwn(D) == Len(D.n) >= Len(Suffix) /\ IsSubAt(D.n, Suffix, Len(D.n) - Len(Suffix) + 1)
IsSupported(D) == D.ok /\ D.keys # <<>>

GrabbedByDefault(D, mice) ==
  IF NumKeys(D) >= 32 THEN TRUE
  ELSE IF HasMouseAxes(D) THEN mice
  ELSE ~HasUncommonAxes(D) /\ D.sw = <<>>

Concerns(f, D) == FilterMatches([f EXCEPT !.inv = FALSE], IF f.id THEN D.i ELSE D.n, FALSE)
IsGrabbed(gf, D, mice) ==
  /\ IsSupported(D)
  /\ ~IsOwn(D)
  /\ FoldLeft(LAMBDA g, f : IF Concerns(f, D) THEN ~f.inv ELSE g, GrabbedByDefault(D, mice), gf)

\* whether mice matter for a configuration
IsMouse(q) == Exists(q, LAMBDA e : IsButton(e[1]) \/ IsWheel(e[1]))
UsesMouse(cs) == \E i \in 1..Len(cs) : \E j \in 1..Len(cs[i]) :
  IsMouse(cs[i][j].mf) \/ Exists(cs[i][j].in, LAMBDA m : IsMouse(m.i))

\* events of other devices are forwarded by the virtual keyboard
HasForwardDevice(D) == HasMouseAxes(D) \/ HasUncommonAxes(D)

NewVirtual == [kd |-> {}, pend |-> <<>>, av |-> 0, ah |-> 0]

Supports(S, v, t, c) ==
  IF v = 0
  THEN CASE t = EV_KEY -> c >= 1 /\ c < 512
         [] t = EV_REL -> c \in {REL_WHEEL, REL_HWHEEL, REL_WHEEL_HI, REL_HWHEEL_HI}
         [] t = EV_ABS -> c \in {ABS_VOLUME, ABS_MISC}
         [] OTHER -> FALSE
  ELSE LET D == S.devs[v] IN
       CASE t = EV_KEY -> DeviceHasKey(D, c)
         [] t = EV_REL -> HasCode(D.rel, c)
         [] t = EV_ABS -> HasAxis(D, c)
         [] t = EV_MSC -> HasCode(D.msc, c)
         [] t = EV_SW -> HasCode(D.sw, c)
         [] OTHER -> FALSE

\* what the system makes of an event written to a virtual device: what it does
\* not support or what changes nothing is ignored
Write(S, w, v, t, c, x) ==
  IF t = EV_SYN
  THEN IF c # 0 \/ w.vd[v].pend = <<>> THEN w
       ELSE [w EXCEPT !.pk = Append(@, <<60, v>> \o w.vd[v].pend), !.vd[v].pend = <<>>]
  ELSE IF ~Supports(S, v, t, c) THEN w
  ELSE IF t = EV_KEY /\ x # 2 /\ (c \in w.vd[v].kd) = (x # 0) THEN w
  ELSE IF t = EV_REL /\ x = 0 THEN w
  ELSE LET w1 == [w EXCEPT !.vd[v].pend = @ \o <<t, c, x>>] IN
       IF t = EV_KEY /\ x = 1 THEN [w1 EXCEPT !.vd[v].kd = @ \cup {c}]
       ELSE IF t = EV_KEY /\ x = 0 THEN [w1 EXCEPT !.vd[v].kd = @ \ {c}]
       ELSE w1

Sync(S, w, v) == Write(S, w, v, EV_SYN, 0, 0)

\* buttons and wheels are those of the mouse which was active last
MouseFor(S, w, t, codes) ==
  IF w.lam # 0 /\ \E c \in codes : Supports(S, w.lam, t, c) THEN w.lam ELSE 0

Truncated(a) == IF a >= 0 THEN a \div DETENT ELSE -((-a) \div DETENT)

SendKey(S, w, k, st, val) ==
  IF IsWheel(k) THEN
    LET vertical == k \in {336, 337}
        hi == IF vertical THEN REL_WHEEL_HI ELSE REL_HWHEEL_HI
        lo == IF vertical THEN REL_WHEEL ELSE REL_HWHEEL
        v == MouseFor(S, w, EV_REL, {hi, lo})
        x == (IF val = 0 THEN DETENT ELSE val) * (IF k \in {337, 338} THEN -1 ELSE 1)
        acc == (IF vertical THEN w.vd[v].av ELSE w.vd[v].ah) + x
        steps == Truncated(acc)
        w1 == Write(S, w, v, EV_REL, hi, x)
        w2 == IF steps = 0 THEN w1 ELSE Write(S, w1, v, EV_REL, lo, steps)
        rest == acc - steps * DETENT
        w3 == IF vertical THEN [w2 EXCEPT !.vd[v].av = rest] ELSE [w2 EXCEPT !.vd[v].ah = rest]
    IN Sync(S, w3, v)
  ELSE
    LET has == {v \in DOMAIN w.vd : k \in w.vd[v].kd}
        v == IF ~IsButton(k) THEN 0
             ELSE IF has # {} THEN CHOOSE v \in has : TRUE
             ELSE MouseFor(S, w, EV_KEY, {k})
        x == IF st = UP THEN 0 ELSE IF k \in w.vd[v].kd THEN 2 ELSE 1
    IN Sync(S, Write(S, w, v, EV_KEY, k, x), v)

\* what the server does is seen of the virtual devices and by the client
EmitAll(S, w) ==
  LET One(x, o) ==
        CASE o[1] = 0 -> SendKey(S, x, o[2], o[3], o[4])
          [] o[1] = 4 -> [x EXCEPT !.ended = TRUE]
          [] o[1] \in {1, 2, 3} -> [x EXCEPT !.ms = Append(@, o)]
          [] OTHER -> x
  IN FoldLeft(One, [w EXCEPT !.s.obs = <<>>, !.s.raw = <<>>], w.s.obs)

Forward(S, w, d, t, c, x) ==
  LET D == S.devs[d]
      v == IF HasForwardDevice(D) THEN d ELSE 0
  IN Write(S, IF v # 0 /\ HasMouseAxes(D) THEN [w EXCEPT !.lam = d] ELSE w, v, t, c, x)

-----------------------------------------------------------------------------
(* connection and grabbing *)

With(w, s) == [w EXCEPT !.s = s]

\* the devices are looked through
Rescan(S, w) ==
  LET mice == UsesMouse(S.cfgs[w.s.c])
      wanted == {d \in w.pl : IsGrabbed(w.gf, S.devs[d], mice)}
      gr == SelectSeq(w.gr, LAMBDA d : d \in wanted) \o Sorted(wanted \ ToSet(w.gr))
      V == {0} \cup {d \in wanted : HasForwardDevice(S.devs[d])}
      descs == [i \in 1..Len(gr) |-> [n |-> S.devs[gr[i]].n, i |-> S.devs[gr[i]].i]]
      w1 == [w EXCEPT !.gr = gr, !.lam = 0, !.cr = @ \cup (V \ (DOMAIN w.vd \cup {0})),
                      !.vd = [v \in V |-> IF v \in DOMAIN w.vd THEN w.vd[v] ELSE NewVirtual]]
  IN EmitAll(S, With(w1, Srv[S.cfgs, "devices", [w1.s EXCEPT !.descs = descs], <<>>]))

\* everything is released
Close(S, w) ==
  LET w1 == IF w.s.c = 0 THEN w ELSE EmitAll(S, With(w, Srv[S.cfgs, "reset", w.s, <<0>>])) IN
  [w1 EXCEPT !.on = FALSE, !.gr = <<>>, !.vd = <<>>, !.lam = 0, !.s.fail = TRUE]

\* the server gives up the connection
Drop(S, w) == LET w1 == Close(S, w) IN [w1 EXCEPT !.ms = Append(@, <<5>>)]

\* an iteration of the main loop
Iterate(S, w) ==
  LET w1 == EmitAll(S, With(w, Loop(S.cfgs, w.s))) IN
  IF w1.ended THEN Close(S, w1) ELSE IF w1.s.c = 0 THEN Drop(S, w1) ELSE w1

Due(s) == (s.fl # NONE /\ s.fl <= 0) \/ (s.tos # NONE /\ s.tos >= s.tom)

RECURSIVE Settle(_, _)
Settle(S, w) == IF w.on /\ Due(w.s) THEN Settle(S, Iterate(S, w)) ELSE w

\* time passes until something is due
RECURSIVE Pass(_, _, _)
Pass(S, w, ms) ==
  LET s == w.s
      fl == IF s.fl = NONE THEN ms + 1 ELSE s.fl
      to == IF s.tos = NONE THEN ms + 1 ELSE s.tom - s.tos
      due == IF fl < to THEN fl ELSE to
      After(x) == With(w, [s EXCEPT !.fl = IF @ = NONE THEN NONE ELSE @ - x, !.tos = IF @ = NONE THEN NONE ELSE @ + x])
  IN IF ~w.on THEN w
     ELSE IF due > ms THEN After(ms)
     ELSE Pass(S, Settle(S, After(due)), ms - due)

-----------------------------------------------------------------------------
(* events of devices *)

Mapped(a, x) ==
  LET range == a[3] - a[2] IN
  IF range = 0 THEN 0 ELSE ((x - a[2]) * 1023) \div range

\* volume knobs have the range of the virtual keyboard's
AxisValue(D, c, x) ==
  IF c \notin {ABS_VOLUME, ABS_MISC} \/ HasForwardDevice(D) \/ ~HasAxis(D, c) THEN x
  ELSE Mapped(D.abs[SelectInSeq(D.abs, LAMBDA a : a[1] = c)], x)

\* one event e = <<type, code, value>> of the device d
Input(S, w, d, e) ==
  LET D == S.devs[d]
      dev == SelectInSeq(w.gr, LAMBDA g : g = d) - 1
      Translate(ev) == Settle(S, Iterate(S, EmitAll(S, With(w, Srv[S.cfgs, "translate", w.s, <<ev, dev>>]))))
      Wheel(pos, neg, x) == Translate(<<IF x < 0 THEN neg ELSE pos, UP, IF x < 0 THEN -x ELSE x>>)
      lo == e[2] \in {REL_WHEEL, REL_HWHEEL}
      vertical == e[2] \in {REL_WHEEL, REL_WHEEL_HI}
      hires == HasCode(D.rel, IF vertical THEN REL_WHEEL_HI ELSE REL_HWHEEL_HI)
  IN
  IF ~w.on \/ dev < 0 THEN w
  ELSE CASE e[1] = EV_KEY -> Translate(<<e[2], IF e[3] = 0 THEN UP ELSE DOWN, 0>>)
         \* devices with high resolution send both
         [] e[1] = EV_REL /\ lo /\ hires -> w
         [] e[1] = EV_REL /\ (lo \/ e[2] \in {REL_WHEEL_HI, REL_HWHEEL_HI}) ->
              LET x == IF lo THEN e[3] * DETENT ELSE e[3] IN
              IF vertical THEN Wheel(336, 337, x) ELSE Wheel(339, 338, x)
         [] e[1] = EV_ABS -> Forward(S, w, d, EV_ABS, e[2], AxisValue(D, e[2], e[3]))
         [] OTHER -> Forward(S, w, d, e[1], e[2], e[3])

KeysAfter(down, q) ==
  FoldLeft(LAMBDA k, e : IF e[1] # EV_KEY THEN k ELSE IF e[3] = 0 THEN k \ {e[2]} ELSE k \cup {e[2]}, down, q)

Packet(S, w, d, q) == FoldLeft(LAMBDA x, e : Input(S, x, d, e), w, Append(q, <<EV_SYN, 0, 0>>))

-----------------------------------------------------------------------------
(***************************************************************************)
(* One step of the environment:                                            *)
(*   <<"plug", d>>, <<"plug", d, e>> (e appears while the devices are      *)
(*     looked through), <<"unplug", d>>                                    *)
(*   <<"in", d, events>> packet of events of a device                      *)
(*   <<"conn", c>>, <<"conn", c, contexts>> client connects and sends its  *)
(*     configuration   <<"cfg", c>>, <<"cfg", c, contexts>> sends another  *)
(*   <<"disc">> client leaves    <<"term">> program is told to end         *)
(*   <<"bye", c>> client sends another configuration and leaves            *)
(*   <<"t", ms>> and messages of the client as in Server                   *)
(***************************************************************************)
StepDaemon(S, w0, ev) ==
  LET w == [w0 EXCEPT !.pk = <<>>, !.ms = <<>>, !.cr = {}, !.s.obs = <<>>, !.s.raw = <<>>]
      Contexts(x, i) == IF Len(ev) < i \/ ~x.on THEN x
                        ELSE EmitAll(S, With(x, Srv[S.cfgs, "contexts", x.s, <<ev[i]>>]))
      r == CASE w.ended -> w
             [] ev[1] = "plug" ->
                  LET x == [w EXCEPT !.pl = @ \cup {ev[j] : j \in 2..Len(ev)}] IN
                  IF w.on THEN Rescan(S, x) ELSE x
             [] ev[1] = "unplug" ->
                  \* its keys are released before it is gone
                  LET d == ev[2]
                      up == Sorted(w.ph[d])
                      x1 == IF up = <<>> THEN w ELSE Packet(S, w, d, [i \in 1..Len(up) |-> <<EV_KEY, up[i], 0>>])
                      x == [x1 EXCEPT !.pl = @ \ {d}, !.ph[d] = {}]
                  IN
                  IF w.on THEN Rescan(S, x) ELSE x
             [] ev[1] = "in" -> Packet(S, [w EXCEPT !.ph[ev[2]] = KeysAfter(@, ev[3])], ev[2], ev[3])
             [] ev[1] = "conn" ->
                  IF w.on THEN w
                  ELSE LET x == [With(w, Srv[S.cfgs, "reset", w.s, <<ev[2]>>]) EXCEPT
                                   !.on = TRUE, !.gf = S.gf[ev[2]], !.vd = [v \in {0} |-> NewVirtual], !.s.fail = FALSE]
                       IN Contexts(Rescan(S, x), 3)
             [] ev[1] = "cfg" ->
                  IF ~w.on THEN w
                  ELSE LET again == w.gf # S.gf[ev[2]] \/ UsesMouse(S.cfgs[w.s.c]) # UsesMouse(S.cfgs[ev[2]])
                           x == Contexts([EmitAll(S, With(w, Srv[S.cfgs, "reset", w.s, <<ev[2]>>])) EXCEPT !.gf = S.gf[ev[2]]], 3)
                       IN IF again THEN Drop(S, x) ELSE x
             [] ev[1] = "bye" ->
                  IF ~w.on THEN w
                  ELSE LET x == [EmitAll(S, With(w, Srv[S.cfgs, "reset", w.s, <<ev[2]>>])) EXCEPT !.gf = S.gf[ev[2]]]
                       IN [Close(S, x) EXCEPT !.ms = <<>>]
             [] ev[1] = "disc" -> IF w.on THEN [Close(S, w) EXCEPT !.ms = <<>>] ELSE w
             [] ev[1] = "term" -> [Close(S, w) EXCEPT !.ended = TRUE]
             [] ev[1] = "t" -> Pass(S, w, ev[2])
             [] OTHER ->
                  IF ~w.on THEN w ELSE EmitAll(S, With(w, StepServer(S.cfgs, w.s, ev)))
  IN Settle(S, r)

CreatedObs(S, v) ==
  LET D == S.devs[v]
      Codes(q) == Sorted(ToSet(q)) \o <<-1>>
      axes == SortSeq(D.abs, LAMBDA a, b : a[1] < b[1])
  IN <<53, v>> \o D.ids \o Codes(D.rel) \o Codes(D.sw) \o Codes(D.msc) \o Codes(D.props)
     \o FlattenSeq(axes) \o <<-1, IF D.rep THEN 1 ELSE 0, NumKeys(D)>>

DaemonObs(S, w) ==
  IF w.ended THEN Append(w.pk, <<70>>)
  ELSE w.pk \o w.ms \o [i \in 1..Cardinality(w.cr) |-> CreatedObs(S, Sorted(w.cr)[i])]
       \o <<<<51>> \o Sorted(ToSet(w.gr)), <<52>> \o Sorted(DOMAIN w.vd)>>
=============================================================================
