-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* The connection between keymapper and keymapperd: a stream in each       *)
(* direction (1: to the server, 2: to the client), which delivers messages *)
(* in pieces, may break off anywhere and can be established again.         *)
(*                                                                         *)
(* Positions are counted in units, each message has the same number of     *)
(* units, which the driver maps to positions in its bytes. A message is    *)
(* delivered by the first read after its last unit arrived.                *)
(*                                                                         *)
(* The content of a message is given by what its receiver gets to see, in  *)
(* particular how the contexts of a configuration make up stages.          *)
(***************************************************************************)
EXTENDS Keys

BAD == 0   \* a malformed message

-----------------------------------------------------------------------------
(* content of messages, as lists of integers *)

Bool(b) == IF b THEN 1 ELSE 0
Flat(seq) == FoldLeft(LAMBDA acc, e : acc \o e, <<>>, seq)

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
SLASH == 47
\* /.../ or /.../i is a regular expression (only plain texts are used here)
IsRegex(s) ==
  \/ Len(s) >= 2 /\ s[1] = SLASH /\ Back(s) = SLASH
  \/ Len(s) >= 3 /\ s[1] = SLASH /\ s[Len(s) - 1] = SLASH /\ Back(s) = 105
IgnoresCase(s) == Back(s) = 105
Body(s) == SubSeq(s, 2, Len(s) - (IF IgnoresCase(s) THEN 2 ELSE 1))
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]

FilterMatches(f, text) ==
  f.inv # (\/ f.s = <<>>
           \/ IF ~IsRegex(f.s) THEN f.s = text
              ELSE IF IgnoresCase(f.s) THEN ContainsSub(LowerAll(text), LowerAll(Body(f.s)))
              ELSE ContainsSub(text, Body(f.s)))

FilterObs(type, f, probes) ==
  <<type, Bool(f.inv)>> \o [i \in 1..Len(probes) |-> Bool(FilterMatches(f, probes[i]))] \o <<-1>> \o f.s \o <<-1>>

ContextObs(c, stage, probes) ==
  <<<<21, stage, Bool(c.inv), Bool(c.ft)>>>>
  \o [i \in 1..Len(c.in) |-> <<22, c.in[i].o>> \o Flat(c.in[i].i)]
  \o [i \in 1..Len(c.out) |-> <<23>> \o Flat(c.out[i])]
  \o LET cmd == SortSeq(c.cmd, LAMBDA a, b : a.x < b.x) IN   \* looked up by number
     [i \in 1..Len(cmd) |-> <<24, cmd[i].x>> \o Flat(cmd[i].o)]
  \o <<FilterObs(25, c.dn, probes), FilterObs(26, c.di, probes), <<27>> \o Flat(c.mf)>>

\* a context which begins a stage ends the stage before it
StageOf(ctx, i) == 1 + Cardinality({j \in 2..i : ctx[j].begin})

ConfigObs(g, probes) ==
  [i \in 1..Len(g.grab) |-> Append(FilterObs(20, g.grab[i], probes), Bool(g.grab[i].id))]
  \o Flat([i \in 1..Len(g.ctx) |-> ContextObs(g.ctx[i], StageOf(g.ctx, i), probes)])
  \o <<<<29, Len(g.ctx)>>>>
  \o [i \in 1..Len(g.dir) |-> <<28>> \o g.dir[i]]
  \o <<<<30>>>>

MessageObs(m, probes) ==
  CASE m[1] = "cfg" -> ConfigObs(m[2], probes)
    [] m[1] = "ctx" -> <<<<4>> \o m[2]>>
    [] m[1] = "vk" -> <<<<5, m[2], m[3]>>>>
    [] m[1] = "val" -> <<<<6>>>>
    [] m[1] = "nki" -> <<<<7>>>>
    [] m[1] = "ii" -> <<<<8>> \o Flat(m[2])>>
    [] m[1] = "io" -> <<<<9>> \o Flat(m[2])>>
    [] m[1] = "act" -> <<<<4, m[2]>>>>
    [] m[1] = "vks" -> <<<<5, m[2], m[3]>>>>
    [] m[1] = "info" -> <<<<6, m[2]>> \o m[3] \o <<-1>> \o m[4]>>

-----------------------------------------------------------------------------
(* streams *)

\* q messages sent, arr units arrived, got messages delivered,
\* lim units which can arrive at all once closed, over: reader gave up
Fresh == [q |-> <<>>, arr |-> 0, got |-> 0, closed |-> FALSE, lim |-> 0, over |-> FALSE]
InitLink == [up |-> FALSE, s |-> <<Fresh, Fresh>>]

Other(d) == 3 - d
Total(S, t) == IF t.closed THEN t.lim ELSE Len(t.q) * S.units

\* number of messages which are completely there
Complete(S, t) == t.arr \div S.units
\* the first malformed one ends it
Deliverable(S, t) ==
  LET b == First(t.q, LAMBDA m : m = BAD)
  IN IF b # 0 /\ b <= Complete(S, t) THEN b - 1 ELSE Complete(S, t)
ReadFails(S, t) ==
  \/ Deliverable(S, t) < Complete(S, t)
  \/ t.closed /\ t.arr = t.lim

Possible(S, l, e) ==
  CASE e[1] \in {"conn", "hs"} -> ~l.up
    [] ~l.up -> FALSE
    [] e[1] = "disc" -> TRUE
    [] e[1] \in {"send", "bad"} -> ~l.s[e[2]].closed
    [] e[1] = "arr" -> l.s[e[2]].arr + e[3] <= Total(S, l.s[e[2]])
    [] e[1] \in {"cut", "close"} -> ~l.s[e[2]].closed
    [] e[1] = "read" -> ~l.s[e[2]].over

\* <<observed, next>>
StepLink(S, l, e) ==
  LET d == e[2]
      t == l.s[d]
      delivered == Deliverable(S, t)
  IN
  CASE e[1] = "conn" -> <<<<<<1, 1>>>>, [up |-> TRUE, s |-> <<Fresh, Fresh>>]>>
    [] e[1] = "hs" -> <<<<<<1, 0>>>>, l>>
    [] e[1] = "disc" -> <<<<>>, InitLink>>
    [] e[1] \in {"send", "bad"} ->
         IF l.s[Other(d)].closed THEN <<<<<<2, 0>>>>, l>>
         ELSE <<<<<<2, 1>>>>, [l EXCEPT !.s[d].q = Append(@, IF e[1] = "bad" THEN BAD ELSE e[3])]>>
    [] e[1] = "arr" -> <<<<>>, [l EXCEPT !.s[d].arr = @ + e[3]]>>
    \* the sender goes away, what it sent still arrives
    [] e[1] = "close" -> <<<<>>, [l EXCEPT !.s[d].closed = TRUE, !.s[d].lim = Len(t.q) * S.units,
                                           !.s[Other(d)].over = TRUE]>>
    \* ... or not
    [] e[1] = "cut" -> <<<<>>, [l EXCEPT !.s[d].closed = TRUE, !.s[d].lim = t.arr, !.s[Other(d)].over = TRUE]>>
    [] e[1] = "read" ->
         <<Flat([i \in 1..(delivered - t.got) |-> MessageObs(S.msgs[t.q[t.got + i]], S.probes)])
             \o <<<<3, Bool(~ReadFails(S, t))>>>>,
           [l EXCEPT !.s[d].got = delivered, !.s[d].over = ReadFails(S, t)]>>
=============================================================================
