----------------------------- MODULE LinkGraph -----------------------------
(***************************************************************************)
(* Explores all histories of a connection and checks C19 and C20. Each     *)
(* line of the suite is                                                    *)
(*   [p |-> property, msgs |-> messages, probes |-> texts, units |-> units *)
(*    per message, ev |-> alphabet, max |-> messages per connection,       *)
(*    init |-> events]                                                     *)
(* Ghosts: sent and got messages of the current connection, in use the     *)
(* configuration the server works with.                                    *)
(***************************************************************************)
EXTENDS Link, Json, IOUtils, TLCExt

Suite == ndJsonDeserialize(IOEnv.SUITE)

VARIABLES n, l, sent, got, use, last, obs
vars == <<n, l, sent, got, use, last, obs>>
View == <<n, l>>

RECURSIVE RunInit(_, _, _)
RunInit(S, x, evs) == IF evs = <<>> THEN x ELSE RunInit(S, StepLink(S, x, Head(evs))[2], Tail(evs))

Init ==
  /\ n \in 1..Len(Suite)
  /\ l = RunInit(Suite[n], InitLink, Suite[n].init)
  /\ sent = <<<<>>, <<>>>>
  /\ got = <<<<>>, <<>>>>
  /\ use = 0
  /\ last = <<"">>
  /\ obs = <<>>

Id(v) == <<TLCFP(v), TLCFP(<<v, 1>>)>>
IsConfig(m) == m # BAD /\ Suite[n].msgs[m][1] = "cfg"

Step(a) ==
  LET S == Suite[n]
      e == S.ev[a]
      r == StepLink(S, l, e)
      new == IF e[1] = "read" THEN SubSeq(l.s[e[2]].q, l.s[e[2]].got + 1, r[2].s[e[2]].got) ELSE <<>>
  IN
  /\ Possible(S, l, e)
  /\ e[1] \in {"send", "bad"} => Len(l.s[e[2]].q) < S.max
  /\ e[1] = "bad" => BAD \notin ToSet(l.s[e[2]].q)
  /\ n' = n
  /\ l' = r[2]
  /\ sent' = IF e[1] \in {"conn", "disc"} THEN <<<<>>, <<>>>>
             ELSE IF e[1] \in {"send", "bad"} /\ r[1][1][2] = 1
                  THEN [sent EXCEPT ![e[2]] = Append(@, IF e[1] = "bad" THEN BAD ELSE e[3])] ELSE sent
  /\ got' = IF e[1] \in {"conn", "disc"} THEN <<<<>>, <<>>>>
            ELSE IF e[1] = "read" THEN [got EXCEPT ![e[2]] = @ \o new] ELSE got
  /\ use' = LET c == SelectSeq(new, IsConfig) IN IF e[1] = "read" /\ e[2] = 1 /\ c # <<>> THEN Back(c) ELSE use
  /\ last' = e
  /\ obs' = r[1]
  /\ PrintT("T" \o ToString(<<n, Id(View), a, r[1], Id(View')>>))

Next == \E a \in 1..Len(Suite[n].ev) : Step(a)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C19 *)

\* exactly once, in order, completely
InOrder == \A d \in {1, 2} : IsPrefix(got[d], sent[d]) /\ BAD \notin ToSet(got[d])
\* never an incomplete one
NotEarly == \A d \in {1, 2} : Len(got[d]) * Suite[n].units <= l.s[d].arr

ReadStep ==
  last'[1] = "read" =>
    LET d == last'[2]
        t == l.s[d]
        ok == Back(obs')[2] = 1
    IN \* nothing which arrived is left behind
       /\ ok => Len(got'[d]) = t.arr \div Suite[n].units /\ BAD \notin ToSet(SubSeq(sent[d], 1, Len(got'[d])))
       \* failure is reported, only when there is a reason and exactly once
       /\ ~ok => (t.closed /\ t.arr = t.lim) \/ BAD \in ToSet(sent[d])
       /\ ~ok => l'.s[d].over
       /\ t.closed /\ t.arr = t.lim => ~ok

(* C20 *)

\* the server works with the configuration which was sent last
ConfigStep ==
  last'[1] = "read" /\ last'[2] = 1 /\ l.s[1].arr = Len(l.s[1].q) * Suite[n].units /\ BAD \notin ToSet(sent[1]) =>
    LET c == SelectSeq(sent[1], IsConfig) IN c # <<>> => use' = Back(c)

StateProperty == InOrder /\ NotEarly
StepProperty == [][ReadStep /\ ConfigStep]_vars
=============================================================================
