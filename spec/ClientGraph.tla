---------------------------- MODULE ClientGraph ----------------------------
(***************************************************************************)
(* Explores all histories of a client and checks C21, C22 and C23. Each    *)
(* line of the suite is a scenario of Client with                          *)
(*   p |-> property, ev |-> alphabet, init |-> events                      *)
(* Ghosts: conf what the server received last, last the event.             *)
(***************************************************************************)
EXTENDS Client, Json, IOUtils, TLCExt

Suite == ndJsonDeserialize(IOEnv.SUITE)

VARIABLES n, c, conf, last
vars == <<n, c, conf, last>>
View == <<n, [c EXCEPT !.obs = <<>>]>>

RECURSIVE RunInit(_, _, _)
RunInit(S, x, evs) == IF evs = <<>> THEN x ELSE RunInit(S, StepClient(S, x, Head(evs)), Tail(evs))

Received(obs, before) ==
  LET r == SelectSeq(obs, LAMBDA x : x[1] = 20) IN IF r = <<>> THEN before ELSE Tail(Back(r))

Init ==
  /\ n \in 1..Len(Suite)
  /\ c = RunInit(Suite[n], InitClient, Suite[n].init)
  /\ conf = IF c.started THEN Ids(Suite[n], c.eff) ELSE <<>>
  /\ last = <<"">>

Id(v) == <<TLCFP(v), TLCFP(<<v, 1>>)>>

Step(a) ==
  LET S == Suite[n]
      e == S.ev[a]
      r == StepClient(S, c, e)
  IN
  /\ Possible(S, c, e)
  /\ n' = n
  /\ c' = r
  /\ conf' = Received(r.obs, conf)
  /\ last' = e
  /\ PrintT("T" \o ToString(<<n, Id(View), a, r.obs, Id(View')>>))

Next == \E a \in 1..Len(Suite[n].ev) : Step(a)
Spec == Init /\ [][Next]_vars

Of(obs, type) == SelectSeq(obs, LAMBDA x : x[1] = type)
Looped == c'.obs # <<>>

-----------------------------------------------------------------------------
(* C21: exactly the contexts which accept the focused window are active *)

ContextStep ==
  Looped =>
    LET S == Suite[n]
        W == IF c'.win = 0 THEN [c |-> <<>>, t |-> <<>>, p |-> <<>>] ELSE S.wins[c'.win]
        active == Tail(Back(c'.obs))
    IN /\ ~c'.on => active = <<>>
       /\ c'.on => \A j \in 1..Len(c'.eff) :
            LET f == S.cfgs[c'.eff[j]] IN
            /\ f.id \in ToSet(active)
            /\ \A k \in 1..Len(f.ctx) :
                 (f.ctx[k].m \in ToSet(active)) <=>
                   /\ Accepts(f.ctx[k].c, W.c, FALSE)
                   /\ Accepts(f.ctx[k].t, W.t, TRUE)
                   /\ Accepts(f.ctx[k].p, W.p, TRUE)
       /\ Cardinality(ToSet(active)) = Len(active)

-----------------------------------------------------------------------------
(* C22: what was loaded stays in effect until something else is loaded *)

Loads(e) ==
  CASE e[1] \in {"start", "reload", "setcfg", "disc"} -> 1
    [] e[1] = "multi" -> Len(SelectSeq(e[3], LAMBDA x : x[1] = "setcfg"))
    [] OTHER -> 0

EffectStep ==
  LET S == Suite[n] IN
  \* only a valid configuration replaces the one in effect
  /\ c'.eff # c.eff => c'.eff # FAILED /\ c'.eff = Read(S, c'.disk, c'.cur)
  \* nothing is ignored
  /\ c.auto /\ Looped /\ Read(S, c'.disk, c'.cur) # FAILED => c'.eff = Read(S, c'.disk, c'.cur)
  /\ last'[1] = "setcfg" /\ Looped =>
       LET ok == Read(S, c.disk, last'[3]) # FAILED IN
       /\ Of(c'.obs, 30) = <<<<30, last'[2], IF ok THEN DOWN ELSE UP>>>>
       /\ ok => c'.cur = last'[3]
       /\ ~ok => c'.cur = c.cur
  \* the server has it and gets each one once
  /\ Looped => conf' = Ids(S, c'.eff)
  /\ Len(Of(c'.obs, 20)) <= Loads(last') + (IF (c.auto \/ c'.auto) /\ c.dirty # {} THEN 1 ELSE 0)
  \* an action executes its command of the configuration in effect
  /\ LET x == Of(c'.obs, 40) IN
     IF last'[1] # "act" \/ last'[2] >= 10 THEN x = <<>>
     ELSE /\ Len(x) <= 1
          /\ x = <<>> => \A y \in ToSet(Commands(S, c'.eff)) : y[1] # last'[2]
          /\ x # <<>> => <<last'[2], x[1][2]>> \in ToSet(Commands(S, c'.eff))

-----------------------------------------------------------------------------
(* C23: control requests *)

Answers(d) == SelectSeq(c'.obs, LAMBDA x : x[1] \in {30, 31} /\ x[2] = d)

Wanted(e) ==
  CASE e[1] \in {"get", "set", "inst", "setcfg", "ii", "io", "type"} -> 1
    [] e[1] = "wait" -> IF KeyOf(Suite[n], c', e[3]) = 0 THEN 1 ELSE 0
    [] OTHER -> 0

ControlStep ==
  LET S == Suite[n]
      e == last'
      Up(d) == c.ctl[d].up
  IN
  /\ e[1] \in Requests => Len(Answers(e[2])) = Wanted(e) /\ \A d \in 1..MaxControls : d # e[2] => Answers(d) = <<>>
  /\ e[1] = "multi" /\ Loads(e) = 0 => Len(Answers(e[2])) = FoldLeft(LAMBDA s, x : s + Wanted(x), 0, e[3])
  \* the current state
  /\ e[1] \in {"get", "set"} =>
       Answers(e[2])[1][3] = (LET k == KeyOf(S, c', e[3]) IN IF k = 0 THEN NOT ELSE IF k \in c.vk THEN DOWN ELSE UP)
  \* an unknown key has no effect
  /\ (Of(c'.obs, 22) # <<>>) => e[1] = "multi" \/ (e[1] = "set" /\ KeyOf(S, c', e[3]) # 0)
  \* waiting ends with the change of the key
  /\ e[1] = "svk" => \A d \in 1..MaxControls :
       IF Up(d) /\ c.ctl[d].wait = e[2] THEN Answers(d) = <<<<30, d, e[3]>>>> /\ c'.ctl[d].wait = 0
       ELSE Answers(d) = <<>> /\ c'.ctl[d] = c.ctl[d]
  \* key infos are for those who asked, or are shown
  /\ e[1] = "info" =>
       /\ \A d \in 1..MaxControls : Len(Answers(d)) = IF Up(d) /\ c.ctl[d].info THEN 1 ELSE 0
       /\ (Of(c'.obs, 41) = <<>>) <=> \E d \in 1..MaxControls : Up(d) /\ c.ctl[d].info
  \* an id is used by the connection which used it last
  /\ \A d \in 1..MaxControls : Up(d) /\ ~c'.ctl[d].up =>
       \/ e[1] = "disc"
       \/ e[1] = "cd" /\ e[2] = d
       \/ e[1] \in {"inst", "multi"} /\ e[2] # d /\ c.ctl[d].inst \notin {"", "0"}
  /\ \A d, f \in 1..MaxControls :
       d # f /\ c'.ctl[d].up /\ c'.ctl[f].up /\ c'.ctl[d].inst = c'.ctl[f].inst => c'.ctl[d].inst \in {"", "0"}

StepProperty == [][ContextStep /\ EffectStep /\ ControlStep]_vars
=============================================================================
