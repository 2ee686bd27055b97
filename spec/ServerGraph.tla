---------------------------- MODULE ServerGraph ----------------------------
(***************************************************************************)
(* Explores all histories of the server with small configurations and      *)
(* checks the properties C12 - C16. Each line of the suite is              *)
(*   [p |-> property, cfgs |-> configurations, init |-> events,            *)
(*    ev |-> alphabet, hold |-> keys held at once, depth |-> bound]        *)
(*                                                                         *)
(* Ghosts: ph physical keys held, od keys down on the virtual device, rep  *)
(* virtual keys which are on according to the reports, q output of the     *)
(* engine which was not observed yet (with the delays which have not       *)
(* passed), ex progress of the exit combination.                           *)
(***************************************************************************)
EXTENDS Server, Json, IOUtils, TLCExt

Suite == ndJsonDeserialize(IOEnv.SUITE)

VARIABLES n, s, ph, od, rep, q, ex, last
vars == <<n, s, ph, od, rep, q, ex, last>>

\* without what only describes the last step
Core(x) == [x EXCEPT !.obs = <<>>, !.raw = <<>>]
View == <<n, Core(s), ph, od, rep, q, ex>>

-----------------------------------------------------------------------------
(* ghosts *)

\* apply observations to the set of keys which are down on the output
RECURSIVE OutDown(_, _)
OutDown(d, o) ==
  IF o = <<>> THEN d
  ELSE LET e == Head(o) IN
       OutDown(IF e[1] # 0 \/ IsWheel(e[2]) THEN d
               ELSE IF e[3] = DOWN THEN d \cup {e[2]} ELSE d \ {e[2]}, Tail(o))

\* apply reports of virtual keys
RECURSIVE Reported(_, _)
Reported(d, o) ==
  IF o = <<>> THEN d
  ELSE LET e == Head(o) IN
       Reported(IF e[1] # 2 THEN d ELSE IF e[3] = DOWN THEN d \cup {e[2]} ELSE d \ {e[2]}, Tail(o))

\* every report is a change
RECURSIVE ReportsAlternate(_, _)
ReportsAlternate(d, o) ==
  o = <<>> \/ LET e == Head(o) IN
              IF e[1] # 2 THEN ReportsAlternate(d, Tail(o))
              ELSE (e[3] = DOWN) = (e[2] \notin d) /\
                   ReportsAlternate(IF e[3] = DOWN THEN d \cup {e[2]} ELSE d \ {e[2]}, Tail(o))

\* what is to be seen of the engine's output: keys, actions and delays (7)
Visible(e) == ~IsVirtual(e[1]) /\ ~(IsWheel(e[1]) /\ e[2] = DOWN) /\ ~(IsAction(e[1]) /\ e[2] # DOWN)
AsObserved(e) == IF e[1] = K_TIMEOUT THEN <<7, e[3]>>
                 ELSE IF IsAction(e[1]) THEN <<1, e[1] - ActionBase>> ELSE <<0, e[1], e[2], e[3]>>
Expected(raw) == LET v == SelectSeq(raw, Visible) IN [i \in 1..Len(v) |-> AsObserved(v[i])]

\* the queue after ms have passed and what had to be emitted: <<emitted, rest>>
\* a delay starts when everything before it was emitted
RECURSIVE Drain(_, _)
Drain(w, out) ==
  IF w = <<>> THEN <<out, w>>
  ELSE IF Head(w)[1] = 7 THEN <<out, w>>
  ELSE Drain(Tail(w), Append(out, Head(w)))

Elapse(w, ms) ==
  IF w # <<>> /\ Head(w)[1] = 7
  THEN IF Head(w)[2] <= ms THEN Tail(w) ELSE <<<<7, Head(w)[2] - ms>>>> \o Tail(w)
  ELSE w

OutputOf(o) == SelectSeq(o, LAMBDA e : e[1] \in {0, 1})

\* progress of the exit combination by keyboard events
Combination == <<K_SHIFTL, K_ESCAPE, K_K>>
KeyProgress(x, k, st) ==
  IF ~IsKeyboard(k) THEN x
  ELSE IF st = DOWN /\ x > 0 /\ k = Combination[x] THEN x
  ELSE IF st = DOWN /\ x < 3 /\ k = Combination[x + 1] THEN x + 1
  ELSE 0
Progress(x, e) ==
  CASE e[1] = "k" /\ IsIgnored(s, <<e[2], e[3], e[4]>>) -> x
    [] e[1] = "k" -> KeyProgress(x, e[2], e[3])
    [] e[1] = "ii" -> FoldLeft(LAMBDA y, i : KeyProgress(y, i[1], i[2]), x, e[2])
    [] OTHER -> x

-----------------------------------------------------------------------------

RECURSIVE RunInit(_, _, _)
RunInit(cf, x, evs) ==
  IF evs = <<>> THEN x ELSE RunInit(cf, StepServer(cf, x, Head(evs)), Tail(evs))

Init ==
  /\ n \in 1..Len(Suite)
  /\ s = Core(RunInit(Suite[n].cfgs, InitServer, Suite[n].init))
  /\ ph = {}
  /\ od = ToSet(MultiKeysDown(s.ms))
  /\ rep = {v \in ToSet(s.vk) : IsVirtual(v)}
  /\ q = IF s.fl = NONE THEN <<>> ELSE <<<<7, s.fl>>>> \o Expected(s.buf)
  /\ ex = 0
  /\ last = <<>>

Enabled(e) ==
  CASE s.c = 0 /\ e[1] \notin {"cfg", "d", "fail"} -> FALSE
    [] e[1] = "k" /\ IsWheel(e[2]) -> TRUE
    [] e[1] = "k" /\ e[3] = UP -> <<e[2], e[5]>> \in ph
    [] e[1] = "k" -> /\ \A x \in ph : x[1] = e[2] => x[2] = e[5]
                     /\ <<e[2], e[5]>> \in ph \/ Cardinality(ph) < Suite[n].hold
    [] e[1] = "t" -> s.fl # NONE \/ s.tos # NONE \/ s.buf # <<>>
    [] e[1] = "fail" -> s.fail # (e[2] = 1)
    [] e[1] = "nki" -> ~s.nki
    [] e[1] \in {"ii", "io"} -> Len(s.buf) < 12
    [] OTHER -> TRUE

Id(v) == <<TLCFP(v), TLCFP(<<v, 1>>)>>
IsReset(e, x) == e[1] \in {"cfg", "disc"} \/ Exists(x.obs, LAMBDA o : o[1] \in {4, 5})

Step(a) ==
  LET e == Suite[n].ev[a]
      r == StepServer(Suite[n].cfgs, s, e)
      drained == Drain(Elapse(q, IF e[1] = "t" THEN e[2] ELSE 0) \o Expected(r.raw), <<>>)
  IN
  /\ Enabled(e)
  /\ n' = n
  /\ s' = r
  /\ ph' = IF e[1] # "k" \/ IsWheel(e[2]) THEN ph
           ELSE IF e[3] = DOWN THEN ph \cup {<<e[2], e[5]>>} ELSE ph \ {<<e[2], e[5]>>}
  \* sending fails when the virtual device is gone
  /\ od' = IF r.fail THEN {} ELSE OutDown(od, r.obs)
  /\ rep' = Reported(rep, r.obs)
  /\ q' = IF IsReset(e, r) THEN <<>> ELSE IF r.fl = 0 THEN q \o Expected(r.raw) ELSE drained[2]
  /\ ex' = IF Exists(r.obs, LAMBDA o : o[1] = 4) \/ IsReset(e, r) THEN 0 ELSE Progress(ex, e)
  /\ last' = e
  /\ PrintT("T" \o ToString(<<n, Id(View), a, ServerObs(r), Id(View')>>))

Next == \E a \in 1..Len(Suite[n].ev) : Step(a)
Spec == Init /\ [][Next]_vars

Bound == /\ TLCGet("level") <= Suite[n].depth
         /\ Len(s.buf) <= 14
         /\ \A i \in 1..Len(s.ms) : Len(s.ms[i].seq) <= 7 /\ Len(s.ms[i].hist) <= 6

-----------------------------------------------------------------------------
(* C12 *)

\* a virtual key is on in every stage of the engine, or in none
SeenByStages ==
  \A v \in {61696, 61697, 61698} : \A i \in 1..Len(s.ms) :
    Exists(s.ms[i].seq, LAMBDA x : x[1] = v /\ x[2] # UP) = (v \in ToSet(s.vk))

VirtualConsistent == rep = {v \in ToSet(s.vk) : IsVirtual(v)} /\ SeenByStages

VirtualStep ==
  /\ ReportsAlternate(rep, s'.obs)
  \* a request for the current state changes nothing
  /\ last'[1] = "vk" /\ last'[3] # NOT /\ (last'[3] = DOWN) = (last'[2] \in ToSet(s.vk))
       => s'.obs = <<>> /\ s'.vk = s.vk /\ s'.ms = s.ms
  /\ last'[1] = "vk" /\ ~((last'[3] = DOWN) = (last'[2] \in ToSet(s.vk)) /\ last'[3] # NOT)
       => ~IsVirtual(last'[2]) \/ \E i \in 1..Len(s'.obs) :
            s'.obs[i] = <<2, last'[2], IF last'[2] \in ToSet(s.vk) THEN UP ELSE DOWN>>
  \* each output of a virtual key is a toggle (loops are cut off)
  /\ s.fl = NONE /\ s'.fl = NONE /\ last'[1] \in {"k", "t", "c"} /\ ~IsReset(last', s') =>
       \A v \in {61696, 61697, 61698} :
         LET outs == Len(SelectSeq(s'.raw, LAMBDA x : x[1] = v /\ x[2] = DOWN))
             reports == Len(SelectSeq(s'.obs, LAMBDA o : o[1] = 2 /\ o[2] = v))
         IN reports = outs \/ (reports < outs /\ Len(SelectSeq(s'.obs, LAMBDA o : o[1] = 2)) = 9)

(* C13 *)

\* output is emitted completely, in order, exactly once, and not before its
\* delay has passed; nothing is left waiting without a reason
DelayStep ==
  LET e == last'
      now == IF e[1] = "t" THEN e[2] ELSE 0
      w == Elapse(q, now) \o Expected(s'.raw)
  IN IsReset(e, s') \/
     (IF s'.fl = 0 THEN OutputOf(s'.obs) = <<>> ELSE OutputOf(s'.obs) = Drain(w, <<>>)[1])

\* while output is delayed a repeat of the last key is not queued
RepeatStep ==
  last'[1] = "k" /\ IsIgnored(s, <<last'[2], last'[3], last'[4]>>) => s'.raw = <<>>

(* C14 *)

ExitStep ==
  LET exits == Exists(s'.obs, LAMBDA o : o[1] = 4) IN
  /\ exits = (ex < 3 /\ Progress(ex, last') = 3)
  /\ exits => od' = {} /\ s'.c = 0 /\ Len(SelectSeq(s'.obs, LAMBDA o : o[1] = 4)) = 1

(* C15 *)

Fresh(c, x) == Srv[Suite[n].cfgs, "devices",
                   [InitServer EXCEPT !.c = c, !.ms = InitMulti(IF c = 0 THEN <<>> ELSE Suite[n].cfgs[c]),
                                      !.descs = x.descs, !.fail = x.fail, !.nki = x.nki], <<>>]

ResetStep ==
  IsReset(last', s') =>
    /\ \/ s.fail
       \/ od' = ToSet(MultiKeysDown(s'.ms))
    \* nothing distinguishes it from a server which was just started
    /\ [Core(s') EXCEPT !.tom = 0, !.cou = FALSE, !.nki = FALSE, !.bad = FALSE] =
       [Core(Fresh(IF last'[1] = "cfg" THEN last'[2] ELSE 0, s')) EXCEPT !.tom = 0, !.cou = FALSE, !.nki = FALSE, !.bad = FALSE]
    /\ (s'.nki => s.nki /\ last'[1] = "cfg")

(* C16 *)

Infos(o) == SelectSeq(o, LAMBDA x : x[1] = 3)

KeyInfoStep ==
  LET e == last'
      reports == s.nki /\ e[1] = "k" /\ IsDevice(e[2]) /\ e[2] # 272 /\ (e[3] = DOWN \/ IsWheel(e[2]))
                 /\ ~IsIgnored(s, <<e[2], e[3], e[4]>>)
      injects == s.nki /\ e[1] = "ii" /\ Exists(e[2], LAMBDA x : x[2] = DOWN /\ IsDevice(x[1]) /\ x[1] # 272)
  IN
  /\ reports => /\ Infos(s'.obs) = <<<<3, e[2]>> \o DeviceInfo(s, e[5])>>
                /\ ~s'.nki
                /\ e[3] = DOWN => s'.ms = s.ms /\ s'.raw = <<>>
  /\ ~reports /\ ~injects => Infos(s'.obs) = <<>> /\ (e[1] \notin {"nki", "disc"} => s'.nki = s.nki)

InjectStep ==
  LET e == last' IN
  /\ e[1] = "io" => s'.ms = s.ms /\ s'.raw = e[2] /\ s'.fl # NONE
  /\ e[1] = "ii" /\ ~s.nki /\ s.fl = NONE /\ s.tos = NONE /\ s'.tos = NONE =>
       LET typed == FoldLeft(LAMBDA m, x : MultiUpdate[Config(Suite[n].cfgs, s), m, x, NoDevice][1], s.ms,
                                SelectSeq(e[2], LAMBDA x : IsDevice(x[1]) /\ x[2] \in {UP, DOWN}))
       IN s'.ms = typed \/ s'.c = 0

StateProperty == Suite[n].p = "C12" => VirtualConsistent
StepProperty == [][
  CASE Suite[n].p = "C12" -> VirtualStep
    [] Suite[n].p = "C13" -> DelayStep /\ RepeatStep
    [] Suite[n].p = "C14" -> ExitStep
    [] Suite[n].p = "C15" -> ResetStep
    [] Suite[n].p = "C16" -> KeyInfoStep /\ InjectStep]_vars
=============================================================================
