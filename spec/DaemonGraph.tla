---------------------------- MODULE DaemonGraph ----------------------------
(***************************************************************************)
(* Explores all histories of the server program with few devices and small *)
(* configurations and checks the properties C24 - C26. Each line of the    *)
(* suite is                                                                *)
(*   [p |-> property, cfgs |-> configurations, gf |-> grab filters,        *)
(*    devs |-> devices, init |-> events, ev |-> alphabet,                  *)
(*    hold |-> keys held at once, depth |-> bound,                         *)
(*    plain |-> wheels are neither mapped nor delayed]                     *)
(*                                                                         *)
(* Ghost: chg the devices changed since the last configuration (which of   *)
(* several devices repeats a key is not specified afterwards).             *)
(***************************************************************************)
EXTENDS Daemon, Json, IOUtils, TLCExt

Suite == ndJsonDeserialize(IOEnv.SUITE)

VARIABLES n, w, chg, last
vars == <<n, w, chg, last>>

S == Suite[n]

\* without what only describes the last step
Core(x) == [x EXCEPT !.pk = <<>>, !.ms = <<>>, !.cr = {}, !.s.obs = <<>>, !.s.raw = <<>>]
View == <<n, Core(w), chg>>

-----------------------------------------------------------------------------

RECURSIVE RunInit(_, _, _)
RunInit(sc, x, evs) ==
  IF evs = <<>> THEN x ELSE RunInit(sc, StepDaemon(sc, x, Head(evs)), Tail(evs))

Init ==
  /\ n \in 1..Len(Suite)
  /\ w = Core(RunInit(Suite[n], InitDaemon(Suite[n]), Suite[n].init))
  /\ chg = FALSE
  /\ last = <<>>

Held == UNION {{<<d, k>> : k \in w.ph[d]} : d \in 1..Len(S.devs)}

\* keys are pressed before they are repeated or released
EnabledKey(d, k, x) ==
  CASE x = 0 -> k \in w.ph[d]
    [] x = 1 -> /\ k \notin w.ph[d]
                /\ Cardinality(Held) < S.hold
                /\ chg => \A h \in Held : h[2] # k
    [] OTHER -> k \in w.ph[d] /\ ~chg

Enabled(e) ==
  CASE w.ended -> FALSE
    [] e[1] = "in" -> e[2] \in w.pl /\ \A i \in 1..Len(e[3]) :
         e[3][i][1] = EV_KEY => EnabledKey(e[2], e[3][i][2], e[3][i][3])
    [] e[1] = "plug" -> \A i \in 2..Len(e) : e[i] \notin w.pl
    [] e[1] = "unplug" -> e[2] \in w.pl
    [] e[1] = "conn" -> ~w.on
    [] e[1] = "term" -> TRUE
    [] e[1] = "t" -> w.on /\ (w.s.fl # NONE \/ w.s.tos # NONE)
    [] OTHER -> w.on

Id(v) == <<TLCFP(v), TLCFP(<<v, 1>>)>>

Step(a) ==
  LET e == S.ev[a] IN
  /\ Enabled(e)
  /\ w' = StepDaemon(S, w, e)
  /\ chg' = CASE e[1] \in {"plug", "unplug"} -> TRUE
              [] e[1] \in {"cfg", "conn"} -> FALSE
              [] OTHER -> chg
  /\ last' = e
  /\ UNCHANGED n
  /\ PrintT("T" \o ToString(<<n, Id(View), a, DaemonObs(S, w'), Id(View')>>))

Next == \E a \in 1..Len(S.ev) : Step(a)
Spec == Init /\ [][Next]_vars

Bound == TLCGet("level") <= S.depth

-----------------------------------------------------------------------------
(* what is seen of the virtual devices *)

\* events <<device, type, code, value>> of packets
EventsOf(pk) ==
  FlattenSeq([i \in 1..Len(pk) |->
    LET p == pk[i] IN [j \in 1..((Len(p) - 2) \div 3) |-> <<p[2], p[3 * j], p[3 * j + 1], p[3 * j + 2]>>]])

\* keys down <<device, key>> after events
DownAfter(down, q) ==
  FoldLeft(LAMBDA k, e : IF e[2] # EV_KEY THEN k
                         ELSE IF e[4] = 0 THEN k \ {<<e[1], e[3]>>} ELSE k \cup {<<e[1], e[3]>>}, down, q)
Down(x) == UNION {{<<v, k>> : k \in x.vd[v].kd} : v \in DOMAIN x.vd}

Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Motion(q, v, c) == Sum([i \in 1..Len(q) |-> IF q[i][1] = v /\ q[i][2] = EV_REL /\ q[i][3] = c THEN q[i][4] ELSE 0])

(* C24 *)

WellFormedState ==
  /\ \A v \in DOMAIN w.vd : w.vd[v].pend = <<>>
  /\ \A x, y \in Down(w) : x[2] = y[2] => x = y
  /\ \A v \in DOMAIN w.vd : w.vd[v].av \in -119..119 /\ w.vd[v].ah \in -119..119

\* press, repeats and release, each on the device which has the key pressed
WellFormedStep ==
  LET q == EventsOf(w'.pk) IN
  \A i \in 1..Len(q) : q[i][2] = EV_KEY =>
    LET before == DownAfter(Down(w), SubSeq(q, 1, i - 1)) IN
    IF q[i][4] = 1 THEN \A x \in before : x[2] # q[i][3]
    ELSE <<q[i][1], q[i][3]>> \in before

KeysStep ==
  w'.on => Down(w') = {x \in DownAfter(Down(w), EventsOf(w'.pk)) : x[1] \in DOMAIN w'.vd}

\* one step of the wheel per detent
DetentStep ==
  LET q == EventsOf(w'.pk) IN
  \A v \in DOMAIN w'.vd \cap DOMAIN w.vd :
    /\ Supports(S, v, EV_REL, REL_WHEEL) /\ Supports(S, v, EV_REL, REL_WHEEL_HI) =>
         w.vd[v].av + Motion(q, v, REL_WHEEL_HI) = DETENT * Motion(q, v, REL_WHEEL) + w'.vd[v].av
    /\ Supports(S, v, EV_REL, REL_HWHEEL) /\ Supports(S, v, EV_REL, REL_HWHEEL_HI) =>
         w.vd[v].ah + Motion(q, v, REL_HWHEEL_HI) = DETENT * Motion(q, v, REL_HWHEEL) + w'.vd[v].ah

\* motion of the wheels of a packet or of packets, of devices which have a wheel
\* with high resolution
InputMotion(d, q, hi, lo) ==
  Sum([i \in 1..Len(q) |-> IF q[i][1] # EV_REL THEN 0
                           ELSE IF HasCode(S.devs[d].rel, hi) THEN (IF q[i][2] = hi THEN q[i][3] ELSE 0)
                           ELSE IF q[i][2] = lo THEN DETENT * q[i][3] ELSE 0])
OutputMotion(q, hi, lo, Rest(_, _)) ==
  Sum([i \in 1..Cardinality(DOMAIN w'.vd) |->
    LET v == Sorted(DOMAIN w'.vd)[i] IN
    IF Supports(S, v, EV_REL, hi) THEN Motion(q, v, hi)
    ELSE DETENT * Motion(q, v, lo) + Rest(w', v) - Rest(w, v)])

MotionStep ==
  S.plain /\ last'[1] = "in" /\ last'[2] \in ToSet(w.gr) =>
    LET q == EventsOf(w'.pk) IN
    /\ OutputMotion(q, REL_WHEEL_HI, REL_WHEEL, LAMBDA x, v : x.vd[v].av) =
         InputMotion(last'[2], last'[3], REL_WHEEL_HI, REL_WHEEL)
    /\ OutputMotion(q, REL_HWHEEL_HI, REL_HWHEEL, LAMBDA x, v : x.vd[v].ah) =
         InputMotion(last'[2], last'[3], REL_HWHEEL_HI, REL_HWHEEL)

IsWheelAxis(c) == c \in {REL_WHEEL, REL_HWHEEL, REL_WHEEL_HI, REL_HWHEEL_HI}

\* other events come from the corresponding device as they are
ForwardStep ==
  LET e == last'
      d == e[2]
      Other(t, c) == t # EV_KEY /\ ~(t = EV_REL /\ IsWheelAxis(c))
      out == SelectSeq(EventsOf(w'.pk), LAMBDA x : Other(x[2], x[3]))
      in == SelectSeq(e[3], LAMBDA x : Other(x[1], x[2]))
      corresponds == HasMouseAxes(S.devs[d]) \/ HasUncommonAxes(S.devs[d])
  IN IF e[1] # "in" \/ d \notin ToSet(w.gr) THEN out = <<>>
     ELSE IF corresponds THEN out = [i \in 1..Len(in) |-> <<d>> \o in[i]]
     ELSE \A i \in 1..Len(out) : out[i][1] = 0 /\ out[i][2] = EV_ABS /\ out[i][4] \in 0..1023

(* C25 *)

\* the last filter which concerns a device decides
Wanted(D) ==
  LET concerning == {i \in 1..Len(w.gf) : LET f == w.gf[i]
                                              text == IF f.id THEN D.i ELSE D.n
                                          IN IF f.rx THEN \E p \in ToSet(f.p) : ContainsSub(text, p)
                                             ELSE text = f.p[1]}
      keyboard == NumKeys(D) >= 32
      mouse == HasCode(D.rel, 0) \/ HasCode(D.rel, 1)
      useful == \A a \in ToSet(D.abs) : a[1] \in {ABS_VOLUME, ABS_MISC}
  IN IF concerning # {} THEN ~w.gf[CHOOSE i \in concerning : \A j \in concerning : j <= i].inv
     ELSE keyboard \/ (mouse /\ UsesMouse(S.cfgs[w.s.c])) \/ (~mouse /\ useful /\ D.sw = <<>>)

GrabbedState ==
  IF ~w.on THEN w.gr = <<>> /\ DOMAIN w.vd = {}
  ELSE /\ ToSet(w.gr) = {d \in w.pl : S.devs[d].ok /\ S.devs[d].keys # <<>> /\ ~IsOwn(S.devs[d]) /\ Wanted(S.devs[d])}
       /\ Len(w.gr) = Cardinality(ToSet(w.gr))
       /\ Len(w.s.descs) = Len(w.gr)
       /\ \A i \in 1..Len(w.gr) : w.s.descs[i].n = S.devs[w.gr[i]].n /\ w.s.descs[i].i = S.devs[w.gr[i]].i
       /\ DOMAIN w.vd = {0} \cup {d \in ToSet(w.gr) : HasForwardDevice(S.devs[d])}

\* nothing is sent because of a device which is not grabbed
IgnoredStep ==
  last'[1] = "in" /\ last'[2] \notin ToSet(w.gr) => w'.pk = <<>> /\ w'.ms = <<>> /\ w'.s.ms = w.s.ms

(* C26 *)

\* whoever leaves, leaves nothing behind
LeaveStep ==
  w.on /\ ~w'.on => /\ w'.gr = <<>> /\ DOMAIN w'.vd = {}
                    /\ DownAfter(Down(w), EventsOf(w'.pk)) = {}

\* the connection is only given up for devices to be grabbed anew
KeepStep ==
  w.on /\ ~w'.on => \/ last'[1] \in {"disc", "bye", "term"}
                    \/ w'.ended /\ last'[1] = "in"
                    \/ /\ last'[1] = "cfg"
                       /\ \/ S.gf[last'[2]] # w.gf
                          \/ UsesMouse(S.cfgs[last'[2]]) # UsesMouse(S.cfgs[w.s.c])

\* another client is served like the first one
Anew == [InitDaemon(S) EXCEPT !.pl = w.pl, !.ph = w.ph]
\* apart from the last key and the timeout which have no effect any more
Alike(x) == LET y == [Core(x) EXCEPT !.s.last = <<>>] IN
            IF y.s.tos = NONE THEN [y EXCEPT !.s.tom = 0, !.s.cou = FALSE] ELSE y
NextClientStep ==
  last'[1] = "conn" => LET x == StepDaemon(S, Anew, last') IN
                       Alike(w') = Alike(x) /\ DaemonObs(S, w') = DaemonObs(S, x)

-----------------------------------------------------------------------------

StateProperty ==
  CASE S.p = "C24" -> WellFormedState
    [] S.p = "C25" -> GrabbedState
    [] OTHER -> GrabbedState

StepProperty ==
  [][CASE S.p = "C24" -> WellFormedStep /\ KeysStep /\ DetentStep /\ MotionStep /\ ForwardStep
       [] S.p = "C25" -> IgnoredStep
       [] OTHER -> LeaveStep /\ KeepStep /\ NextClientStep]_vars
=============================================================================
