-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Explores all histories of small configurations completely. Each line of *)
(* the suite is                                                            *)
(*   [p |-> property, cs |-> stages, init |-> events, ev |-> alphabet, ...]*)
(* Every transition is printed with what has to be emitted, so the graph   *)
(* can be replayed into the real engine; the properties are checked on it. *)
(*                                                                         *)
(* Ghosts (not part of the engine):                                        *)
(*   ph  physical keys held     vk  virtual keys which are on              *)
(*   od  keys down on the output (from what was emitted)                   *)
(*   pt  timeout requested and not answered yet                            *)
(*   g   property specific history, see Props                              *)
(*   last  the step which led here, not part of the state's identity       *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils, TLCExt

Suite == ndJsonDeserialize(IOEnv.SUITE)

VARIABLES n, ms, ph, vk, od, pt, g, last
vars == <<n, ms, ph, vk, od, pt, g, last>>
View == <<n, ms, ph, vk, od, pt, g>>

\* apply emitted events to the set of keys which are down
RECURSIVE OutDown(_, _)
OutDown(d, q) ==
  IF q = <<>> THEN d
  ELSE LET e == Head(q) IN
       OutDown(IF ~IsDevice(e[1]) THEN d
               ELSE IF e[2] = DOWN THEN d \cup {e[1]} ELSE d \ {e[1]}, Tail(q))

RECURSIVE RunInit(_, _, _, _)
RunInit(cs, s, q, out) ==
  IF q = <<>> THEN <<s, out>>
  ELSE LET r == StepEngine(cs, s, Head(q)) IN RunInit(cs, r[1], Tail(q), out \o r[2])

Init ==
  /\ n \in 1..Len(Suite)
  /\ LET r == RunInit(Suite[n].cs, InitMulti(Suite[n].cs), Suite[n].init, <<>>) IN
     /\ ms = r[1]
     /\ od = OutDown({}, r[2])
     /\ g = InitGhost(Suite[n], r[1], r[2])
  /\ ph = {} /\ vk = {} /\ pt = <<>>
  /\ last = [ev |-> <<>>, out |-> <<>>]

IsKeyEv(e) == e[1] = "k" /\ e[2] # K_TIMEOUT

Enabled(e) ==
  IF e[1] # "k" THEN TRUE
  ELSE IF e[2] = K_TIMEOUT THEN pt # <<>>
  ELSE IF IsVirtual(e[2]) THEN (e[3] = DOWN) # (e[2] \in vk)
  ELSE IF e[3] = UP THEN <<e[2], e[5]>> \in ph
  ELSE \* a key can be held on one device only here; at most hold keys at once
       /\ \A x \in ph : x[1] = e[2] => x[2] = e[5]
       /\ <<e[2], e[5]>> \in ph \/ Cardinality(ph) < Suite[n].hold

\* the request for an input timeout is the last event of the output
Request(q) == IF q # <<>> /\ Back(q)[1] = K_TIMEOUT THEN <<Back(q)>> ELSE <<>>

Id(v) == <<TLCFP(v), TLCFP(<<v, 1>>)>>

Step(a) ==
  LET e == Suite[n].ev[a]
      r == StepEngine(Suite[n].cs, ms, e)
      s2 == r[1]
      isKey == IsKeyEv(e)
  IN
  /\ Enabled(e)
  /\ ms' = s2
  /\ n' = n
  /\ ph' = IF ~isKey \/ IsVirtual(e[2]) THEN ph
           ELSE IF e[3] = DOWN THEN ph \cup {<<e[2], e[5]>>} ELSE ph \ {<<e[2], e[5]>>}
  /\ vk' = IF ~isKey \/ ~IsVirtual(e[2]) THEN vk
           ELSE IF e[3] = DOWN THEN vk \cup {e[2]} ELSE vk \ {e[2]}
  /\ od' = OutDown(od, r[2])
  /\ pt' = IF e[1] # "k" THEN pt
           ELSE IF Request(r[2]) # <<>> THEN Request(r[2])
           ELSE IF e[2] = K_TIMEOUT THEN <<>> ELSE pt
  /\ last' = [ev |-> e, out |-> r[2]]
  /\ g' = NextGhost(Suite[n], g, ms, s2, e, r[2], ph, ph')
  /\ PrintT("T" \o ToString(<<n, Id(View), a, Observed(r), Id(View')>>))

Next == \E a \in 1..Len(Suite[n].ev) : Step(a)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* bound for configurations whose pending input could grow for ever
Bound == TLCGet("level") <= Suite[n].depth /\ \A i \in 1..Len(ms) : Len(ms[i].seq) <= 7 /\ Len(ms[i].hist) <= Suite[n].maxh /\ Len(ms[i].oor) <= 4

StateProperty == StateOk(Suite[n], ms, ph, vk, od, pt, g)
StepProperty == [][StepOk(Suite[n], ms, ms', ph, ph', vk, vk', od, od', pt, g, g', last')]_vars
=============================================================================
