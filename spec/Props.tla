-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The properties of the mapping engine (C01 - C11), stated on what can be *)
(* observed from outside: events in, events out, which keys are held. Each *)
(* configuration of a suite carries the parameters of its property, e.g.   *)
(* which output keys belong to which context ("sentinels").                *)
(***************************************************************************)
EXTENDS MultiStage

Keys(S) == {x[1] : x \in S}
Count(q, ev) == Len(SelectSeq(q, LAMBDA x : x = ev))
Downs(q, k) == Count(q, Ev(k, DOWN))
Ups(q, k) == Count(q, Ev(k, UP))
Has(r, f) == f \in DOMAIN r

RECURSIVE DownAfter(_, _)
DownAfter(d, q) ==
  IF q = <<>> THEN d
  ELSE LET e == Head(q) IN
       DownAfter(IF ~IsDevice(e[1]) THEN d
                 ELSE IF e[2] = DOWN THEN d \cup {e[1]} ELSE d \ {e[1]}, Tail(q))

IsKeyInput(e) == e[1] = "k" /\ IsDevice(e[2])
IsFirstPress(e, ph) == IsKeyInput(e) /\ e[3] = DOWN /\ e[2] \notin Keys(ph)
IsRepeat(e, ph) == IsKeyInput(e) /\ e[3] = DOWN /\ e[2] \in Keys(ph)
PressedKeys(q) == LET d == SelectSeq(q, LAMBDA x : x[2] = DOWN /\ IsDevice(x[1]))
                  IN [i \in 1..Len(d) |-> d[i][1]]

-----------------------------------------------------------------------------
(* C01: for key strokes which do not overlap a list of plain sequences is  *)
(* a rewriting system. rules: << [i |-> keys, o |-> keys] >>               *)

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

RECURSIVE LongestStart(_, _, _)
LongestStart(rules, pend, len) ==
  IF len = 0 THEN <<0, 0>>
  ELSE LET i == First(rules, LAMBDA r : r.i = SubSeq(pend, 1, len))
       IN IF i # 0 THEN <<i, len>> ELSE LongestStart(rules, pend, len - 1)

RECURSIVE Settle(_, _, _)
Settle(rules, pend, out) ==
  IF pend = <<>> THEN <<pend, out>>
  ELSE LET i == First(rules, LAMBDA r : Prefix(pend, r.i)) IN
  IF i # 0 THEN
    IF rules[i].i = pend THEN <<<<>>, out \o rules[i].o>> ELSE <<pend, out>>
  ELSE LET s == LongestStart(rules, pend, Len(pend) - 1) IN
  IF s[1] # 0 THEN Settle(rules, SubSeq(pend, s[2] + 1, Len(pend)), out \o rules[s[1]].o)
  ELSE Settle(rules, Tail(pend), Append(out, Head(pend)))

-----------------------------------------------------------------------------
(* Ghost state of each property *)

Active(ms, s, c) == c \in ToSet(ms[s].act)

InitGhost(cfg, ms, out) ==
  CASE cfg.p = "C01" -> IF Has(cfg, "rules") THEN [pend |-> <<>>, exp |-> <<>>, got |-> <<>>, ov |-> FALSE, bad |-> FALSE] ELSE <<>>
    [] cfg.p = "C05" -> [i \in 1..Len(cfg.split) |-> 0]
    [] cfg.p = "C06" -> [i \in 1..Len(cfg.timed) |-> 0]
    [] cfg.p = "C07" -> <<>>
    [] cfg.p = "C10" -> [ms |-> StepEngine(cfg.cs2, InitMulti(cfg.cs2), cfg.init2[1])[1], same |-> TRUE]
    [] cfg.p = "C11" -> [lp |-> NoDevice, rep |-> NoDevice]
    [] OTHER -> <<>>

NextGhost(cfg, g, ms, ms2, e, out, ph, ph2) ==
  CASE cfg.p = "C01" /\ Has(cfg, "rules") ->
         LET ov == g.ov \/ IsRepeat(e, ph) \/ (IsFirstPress(e, ph) /\ ph # {})
             s == IF IsFirstPress(e, ph) THEN Settle(cfg.rules, Append(g.pend, e[2]), <<>>) ELSE <<g.pend, <<>>>>
             n == [pend |-> s[1], exp |-> g.exp \o s[2], got |-> g.got \o PressedKeys(out), ov |-> ov, bad |-> FALSE]
             bad == ~ov /\ n.got # n.exp
             \* what was emitted as expected needs not to be remembered
             m == IF bad THEN [n EXCEPT !.bad = TRUE] ELSE [n EXCEPT !.exp = <<>>, !.got = <<>>]
         IN IF ph2 = {} /\ MultiIsClear(ms2) THEN [pend |-> <<>>, exp |-> <<>>, got |-> <<>>, ov |-> FALSE, bad |-> bad]
            ELSE IF ov THEN [pend |-> <<>>, exp |-> <<>>, got |-> <<>>, ov |-> TRUE, bad |-> FALSE]
            ELSE m
    [] cfg.p = "C05" ->
         [i \in 1..Len(cfg.split) |->
            LET sp == cfg.split[i]
                v == g[i] + Downs(out, sp.a) - Downs(out, sp.b)
            IN IF ~IsContextActive[cfg.cs[1], ms2[1], sp.c] /\ e[1] = "c" THEN 0 ELSE v]
    [] cfg.p = "C06" ->  \* 0: not pressed, 1: pressed, 2: time elapsed, 3: cancelled before
         [i \in 1..Len(cfg.timed) |->
            LET tm == cfg.timed[i] IN
            IF e[1] # "k" THEN g[i]
            ELSE IF Exists(out, LAMBDA x : x[1] = K_TIMEOUT) THEN 1
            ELSE IF e[2] = K_TIMEOUT THEN
              IF g[i] = 1 THEN IF e[4] >= tm.ms THEN 2 ELSE 3 ELSE g[i]
            ELSE IF e[2] = tm.t /\ IsFirstPress(e, ph) THEN 1
            ELSE g[i]]
    [] cfg.p = "C10" ->
         LET i == First(cfg.ev, LAMBDA x : x = e)
             r == StepEngine(cfg.cs2, g.ms, cfg.ev2[i])
         IN [ms |-> r[1], same |-> r[2] = out]
    [] cfg.p = "C11" ->
         IF e[1] = "k" /\ e[5] < 0 THEN g
         ELSE IF IsFirstPress(e, ph) THEN [lp |-> e[5], rep |-> IF g.rep = e[5] THEN NoDevice ELSE g.rep]
         ELSE IF IsRepeat(e, ph) /\ e[5] = g.lp THEN [g EXCEPT !.rep = e[5]]
         ELSE IF IsKeyInput(e) /\ e[3] = UP /\ e[5] = g.rep THEN [g EXCEPT !.rep = NoDevice]
         ELSE g
    [] OTHER -> g

-----------------------------------------------------------------------------
(* Properties of states *)

\* C02: what may remain when nothing is held: input which could still match
AtRest(st) == /\ st.down = <<>> /\ st.oor = <<>>
              /\ st.seq # <<>> => st.mm
              /\ st.to # <<>> => st.mm
ContextOutputHeld(ms) == \E i \in 1..Len(ms) :
  \/ \E j \in 1..Len(ms[i].down) : ms[i].down[j].t = K_CTX
  \/ \E j \in 1..Len(ms[i].oor) : ms[i].oor[j].t = K_CTX

NoStuckKeys(ms, ph, vk, od, pt) ==
  (ph = {} /\ vk = {} /\ pt = <<>> /\ ~ContextOutputHeld(ms)) =>
     od = {} /\ \A i \in 1..Len(ms) : AtRest(ms[i])

\* C04: what the engine believes to be down is what it emitted
HonestBookkeeping(ms, od) ==
  LET d == Back(ms).down IN
  od = {d[i].k : i \in {j \in 1..Len(d) : IsDevice(d[j].k) /\ ~d[j].te}}

StateOk(cfg, ms, ph, vk, od, pt, g) ==
  /\ cfg.rest => NoStuckKeys(ms, ph, vk, od, pt)
  /\ cfg.p = "C04" => HonestBookkeeping(ms, od)
  /\ cfg.p = "C05" => \A i \in 1..Len(cfg.split) :
        /\ g[i] \in {0, 1}
        /\ cfg.split[i].t # K_CTX /\ cfg.split[i].t \notin Keys(ph) => g[i] = 0
  /\ cfg.p = "C07" /\ cfg.pure => \A i \in 1..Len(ms) : ~ms[i].mm
  /\ cfg.p = "C10" => g.same
  \* C01: strokes which do not overlap are rewritten as documented
  /\ cfg.p = "C01" /\ Has(cfg, "rules") => ~g.bad

(* Properties of steps: state -> state2 by event e emitting out *)
StepOk(cfg, ms, ms2, ph, ph2, vk, vk2, od, od2, pt, g, g2, step) ==
  LET e == step.ev
      out == step.out
  IN
  CASE cfg.p = "C03" ->
         /\ \A u \in ToSet(cfg.free) :
              IF IsKeyInput(e) /\ e[2] = u THEN
                IF IsFirstPress(e, ph) THEN Downs(out, u) = 1 /\ Ups(out, u) = 0
                ELSE IF e[3] = DOWN THEN Downs(out, u) <= 1 /\ Ups(out, u) <= Downs(out, u)
                ELSE Downs(out, u) = 0 /\ Ups(out, u) = 1
              ELSE Downs(out, u) = 0 /\ Ups(out, u) = 0
         /\ cfg.idle /\ IsKeyInput(e) /\ ~IsRepeat(e, ph) => out = <<<<e[2], e[3], e[4]>>>>
         /\ cfg.idle /\ ~IsKeyInput(e) => out = <<>>
    [] cfg.p = "C04" ->
         /\ \A x \in ToSet(cfg.neg) : \A i \in 1..Len(out) :
              out[i] = Ev(x.o, DOWN) /\ IsKeyInput(e) /\ e[2] = x.t => x.k \notin DownAfter(od, SubSeq(out, 1, i))
         /\ \A x \in ToSet(cfg.pos) : \A i \in 1..Len(out) :
              out[i] = Ev(x.o, DOWN) /\ IsKeyInput(e) /\ e[2] = x.t =>
                \A k \in ToSet(cfg.keep) : k \in Keys(ph) /\ k \in Keys(ph2)
                  => k \in DownAfter(od, SubSeq(out, 1, i))
    [] cfg.p = "C05" ->
         \A i \in 1..Len(cfg.split) :
           LET sp == cfg.split[i] IN
           /\ IsRepeat(e, ph) /\ g[i] = 1 => Downs(out, sp.a) = 0 /\ Downs(out, sp.b) = 0
           /\ Downs(out, sp.a) <= 1 /\ Downs(out, sp.b) <= 1
           /\ e[1] = "c" => Downs(out, sp.b) = 0 \/ sp.t = K_CTX
    [] cfg.p = "C06" ->
         \A i \in 1..Len(cfg.timed) :
           LET tm == cfg.timed[i] IN
           /\ tm.x # 0 /\ Downs(out, tm.x) > 0 => g2[i] = 2
           /\ tm.y # 0 /\ Downs(out, tm.y) > 0 => g2[i] = 3
    [] cfg.p = "C07" ->
         cfg.pure /\ IsFirstPress(e, ph) =>
            \/ Downs(out, e[2]) = 1
            \/ \E x \in ToSet(cfg.repl) : x.k = e[2] /\ Downs(out, x.o) = 1
    [] cfg.p = "C08" ->
         \A x \in ToSet(cfg.sent) :
           Downs(out, x.k) > 0 =>
             /\ \/ IsContextActive[cfg.cs[x.s], ms[x.s], x.c]
                \/ IsContextActive[cfg.cs[x.s], ms2[x.s], x.c]
             /\ IsKeyInput(e) => DeviceMatches(ms[x.s], x.c, e[5]) \/ e[5] = NoDevice \/ x.held
             /\ \A y \in ToSet(x.over) : ~(Active(ms, x.s, y) /\ Active(ms2, x.s, y))
    [] cfg.p = "C09" ->
         \A x \in ToSet(cfg.sent) :
           LET was == Active(ms, x.s, x.c)
               is == Active(ms2, x.s, x.c)
           IN /\ Downs(out, x.k) <= 1 /\ Ups(out, x.k) <= 1
              /\ is /\ ~was => Downs(out, x.k) = 1
              /\ was /\ ~is => Ups(out, x.k) = 1 \/ ~x.hold
              /\ (was <=> is) => Downs(out, x.k) = 0 /\ Ups(out, x.k) = 0
              /\ x.r # 0 => (Downs(out, x.r) = IF was /\ ~is THEN 1 ELSE 0)
              \* deactivations first
              /\ \A y \in ToSet(cfg.sent) : \A i, j \in 1..Len(out) :
                   out[i] = Ev(x.k, DOWN) /\ out[j] = Ev(y.k, UP) /\ y.hold => j < i
    [] cfg.p = "C11" ->
         /\ IsRepeat(e, ph) /\ e[5] >= 0 /\ e[5] # g.lp /\ e[5] # g.rep /\ cfg.idle => out = <<>>
         /\ IsRepeat(e, ph) /\ e[5] = g.lp /\ cfg.idle => out = <<Ev(e[2], DOWN)>>
         /\ IsKeyInput(e) /\ ~IsRepeat(e, ph) /\ cfg.idle => out = <<Ev(e[2], e[3])>>
    [] OTHER -> TRUE
=============================================================================
