------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The client: it keeps the configuration loaded from a file in effect,    *)
(* tells the server the configuration and the contexts which match the     *)
(* focused window, executes commands and answers control connections.      *)
(*                                                                         *)
(* A scenario S consists of                                                *)
(*   cfgs   contents of files: [ok, id, ctx, cmd, al, inc, opt], inc is    *)
(*          the file it includes or 0, a file with ok = FALSE is           *)
(*          erroneous, opt sets whether changes are detected               *)
(*   wins   windows [c, t, p] (class, title and path)                      *)
(*   names  names used by control requests: [x, v], v the virtual key a    *)
(*          name denotes without configuration, 0 when there is none       *)
(*   exprs  injected expressions [ok, q]                                   *)
(*   auto   whether changes of the configuration are detected by default   *)
(* A configuration is the list of the contents it was read from.           *)
(***************************************************************************)
EXTENDS Keys

MaxControls == 3
Files == 1..3
FAILED == <<-1>>
NoFile == 0

-----------------------------------------------------------------------------
(* window filters: [s |-> text, inv |-> inverted, rx |-> regular expression, *)
(*   i |-> which ignores case, a/z |-> only at the begin/end]                *)

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerAll(s) == [j \in 1..Len(s) |-> Lower(s[j])]
Found(f, t, p) ==
  \E j \in 1..(Len(t) - Len(p) + 1) :
    IsSubAt(t, p, j) /\ (f.a => j = 1) /\ (f.z => j + Len(p) - 1 = Len(t))
Accepts(f, text, substring) ==
  f.inv # (\/ f.s = <<>>
           \/ IF f.rx THEN IF f.i THEN Found(f, LowerAll(text), LowerAll(f.s)) ELSE Found(f, text, f.s)
              ELSE IF substring THEN ContainsSub(text, f.s) ELSE text = f.s)

\* the context which accepts every window is given by its marker only
Active(S, eff, w) ==
  LET W == IF w = 0 THEN [c |-> <<>>, t |-> <<>>, p |-> <<>>] ELSE S.wins[w]
      Matches(x) == Accepts(x.c, W.c, FALSE) /\ Accepts(x.t, W.t, TRUE) /\ Accepts(x.p, W.p, TRUE)
      Of(c) == <<S.cfgs[c].id>> \o
               [j \in 1..Len(SelectSeq(S.cfgs[c].ctx, Matches)) |-> SelectSeq(S.cfgs[c].ctx, Matches)[j].m]
  IN FoldLeft(LAMBDA acc, c : acc \o Of(c), <<>>, eff)

Commands(S, eff) == FoldLeft(LAMBDA acc, c : acc \o S.cfgs[c].cmd, <<>>, eff)
Aliases(S, eff) == FoldLeft(LAMBDA acc, c : acc \o S.cfgs[c].al, <<>>, eff)
\* the options of the command line are overridden by those of the file
Automatic(S, eff) ==
  LET opt == FoldLeft(LAMBDA acc, c : acc \o S.cfgs[c].opt, <<>>, eff)
  IN IF opt = <<>> THEN S.auto ELSE Back(opt)
Ids(S, eff) == [j \in 1..Len(eff) |-> S.cfgs[eff[j]].id]

-----------------------------------------------------------------------------
(* files *)

\* configuration which is read from a file
Read(S, disk, f) ==
  LET c == disk[f] IN
  IF c = 0 THEN FAILED
  ELSE IF ~S.cfgs[c].ok THEN FAILED
  ELSE IF S.cfgs[c].inc = 0 THEN <<c>>
  ELSE LET d == disk[S.cfgs[c].inc] IN
       IF d = 0 THEN FAILED
       ELSE IF ~S.cfgs[d].ok THEN FAILED ELSE <<c, d>>

\* files which matter for a configuration
Involved(S, disk, f) ==
  {f} \cup (IF disk[f] = 0 THEN {} ELSE IF S.cfgs[disk[f]].inc = 0 THEN {} ELSE {S.cfgs[disk[f]].inc})

-----------------------------------------------------------------------------

\* wait: the virtual key it waits for, info: whether it waits for a key info
\* waited: whether it ever waited for a virtual key
NoControl == [up |-> FALSE, inst |-> "", wait |-> 0, info |-> FALSE, waited |-> FALSE]

\* disk: content of the files, cur: file in use, eff: configuration in effect
\* watch: files which matter for it, dirty: those changed since it was read
\* auto: changes are detected, on: not deactivated, win: focused window
\* sctx: contexts active on the server, vk: virtual keys which are down
InitClient ==
  [started |-> FALSE, disk |-> [f \in Files |-> 0], cur |-> NoFile, eff |-> <<>>, watch |-> {}, dirty |-> {},
   auto |-> FALSE, on |-> TRUE, win |-> 0, sctx |-> <<>>, vk |-> {},
   ctl |-> [c \in 1..MaxControls |-> NoControl], obs |-> <<>>]

Emit(s, o) == [s EXCEPT !.obs = Append(@, o)]

\* the configuration and the contexts are sent
SendConfig(S, s) == Emit(s, <<20>> \o Ids(S, s.eff))

\* try to load a file, what is in effect stays so when that fails
Load(S, s, f) ==
  LET eff == Read(S, s.disk, f)
      w == Involved(S, s.disk, f)
  IN
  IF eff # FAILED THEN [s EXCEPT !.cur = f, !.eff = eff, !.watch = w, !.dirty = {}]
  ELSE IF s.cur = f \/ s.cur = NoFile
       THEN [s EXCEPT !.cur = f, !.watch = w, !.dirty = {}]
  ELSE s

KeyOf(S, s, n) ==
  LET nm == S.names[n]
      al == Aliases(S, s.eff)
      j == LastIdx(al, LAMBDA a : a[1] = nm.x)
  IN IF nm.v # 0 THEN nm.v ELSE IF j # 0 THEN al[j][2] ELSE 0

\* state of a virtual key as it is answered, NOT for unknown keys
StateOf(s, k) == IF k = 0 THEN NOT ELSE IF k \in s.vk THEN DOWN ELSE UP
Answer(s, c, st) == Emit(s, <<30, c, st>>)

\* everything which is pressed is also released
Complete(q) ==
  LET down == FoldLeft(LAMBDA d, e : IF e[2] = DOWN /\ e[1] \notin ToSet(d) THEN Append(d, e[1])
                                     ELSE IF e[2] = UP THEN SelectSeq(d, LAMBDA x : x # e[1]) ELSE d, <<>>,
                       SelectSeq(q, LAMBDA e : e[1] # K_TIMEOUT))
  IN q \o [j \in 1..Len(down) |-> Ev(down[j], UP)]
Flat(q) == FoldLeft(LAMBDA acc, e : acc \o e, <<>>, q)

Close(s, c) == Emit([s EXCEPT !.ctl[c] = NoControl], <<32, c>>)

RECURSIVE CloseAll(_, _)
CloseAll(s, cs) == IF cs = <<>> THEN s ELSE CloseAll(Close(s, Head(cs)), Tail(cs))
Where(s, Test(_)) == SelectSeq([c \in 1..MaxControls |-> c], LAMBDA c : s.ctl[c].up /\ Test(s.ctl[c]))

RECURSIVE Notify(_, _, _)
Notify(s, cs, k) ==
  IF cs = <<>> THEN s
  ELSE Notify(Answer([s EXCEPT !.ctl[Head(cs)].wait = 0], Head(cs), StateOf(s, k)), Tail(cs), k)

RECURSIVE Inform(_, _, _)
Inform(s, cs, k) ==
  IF cs = <<>> THEN s
  ELSE Inform(Emit([s EXCEPT !.ctl[Head(cs)].info = FALSE], <<31, Head(cs), k, 1, 1, 1, 1, 1>>), Tail(cs), k)

-----------------------------------------------------------------------------

Requests == {"get", "set", "wait", "inst", "setcfg", "ii", "io", "type"}

Possible(S, s, e) ==
  CASE e[1] = "write" -> s.disk[e[2]] # e[3]
    [] e[1] = "start" -> ~s.started
    [] ~s.started -> FALSE
    [] e[1] = "win" -> s.win # e[2]
    [] e[1] = "svk" -> (e[2] \in s.vk) # (e[3] = DOWN)
    [] e[1] = "cc" -> ~s.ctl[e[2]].up
    [] e[1] = "cd" -> s.ctl[e[2]].up
    [] e[1] \in Requests \cup {"multi"} -> s.ctl[e[2]].up /\ ~s.ctl[e[2]].info
    [] e[1] = "nki" -> s.ctl[e[2]].up /\ ~s.ctl[e[2]].waited /\ ~s.ctl[e[2]].info
    [] OTHER -> TRUE

\* what happens by itself: changes of the configuration are detected
Detect(S, s) ==
  IF ~s.auto \/ s.dirty = {} THEN s
  ELSE LET r == Load(S, s, s.cur) IN
       IF Read(S, s.disk, s.cur) = FAILED THEN r ELSE SendConfig(S, r)

React(S, s, e) ==
  LET c == e[2] IN
  CASE e[1] = "start" -> SendConfig(S, Load(S, [s EXCEPT !.started = TRUE], e[2]))
    [] e[1] = "reload" -> SendConfig(S, Load(S, s, s.cur))
    [] e[1] = "win" -> [s EXCEPT !.win = e[2]]
    [] e[1] = "tog" -> [s EXCEPT !.on = ~@]
    \* everybody connects again
    [] e[1] = "disc" -> SendConfig(S, Emit([s EXCEPT !.vk = {}], <<42>>))
    [] e[1] = "act" -> LET cmd == SelectSeq(Commands(S, s.eff), LAMBDA x : x[1] = e[2])
                       IN IF e[2] >= 10 THEN s ELSE Emit(s, <<40, cmd[1][2]>>)
    [] e[1] = "svk" -> LET r == [s EXCEPT !.vk = IF e[3] = DOWN THEN @ \cup {e[2]} ELSE @ \ {e[2]}]
                       IN Notify(r, Where(r, LAMBDA x : x.wait = e[2]), e[2])
    [] e[1] = "info" -> LET cs == Where(s, LAMBDA x : x.info)
                        IN IF cs = <<>> THEN Emit(s, <<41, e[2], 1, 1, 1, 1, 1>>) ELSE Inform(s, cs, e[2])
    [] e[1] = "tinfo" -> Emit(s, <<23>>)
    [] e[1] = "val" -> Emit(s, <<26>>)
    [] e[1] = "cc" -> [s EXCEPT !.ctl[c] = [NoControl EXCEPT !.up = TRUE]]
    [] e[1] = "cd" -> [s EXCEPT !.ctl[c] = NoControl]
    [] e[1] = "get" -> Answer(s, c, StateOf(s, KeyOf(S, s, e[3])))
    [] e[1] = "set" -> LET k == KeyOf(S, s, e[3]) IN
                       Answer(IF k = 0 THEN s ELSE Emit(s, <<22, k, e[4]>>), c, StateOf(s, k))
    [] e[1] = "wait" -> LET k == KeyOf(S, s, e[3]) IN
                        IF k = 0 THEN Answer([s EXCEPT !.ctl[c].waited = TRUE], c, NOT)
                        ELSE [s EXCEPT !.ctl[c].wait = k, !.ctl[c].waited = TRUE]
    \* replaces the connection which has the same id
    [] e[1] = "inst" -> LET same == IF e[3] \in {"", "0"} THEN <<>>
                                    ELSE SelectSeq(Where(s, LAMBDA x : x.inst = e[3]), LAMBDA d : d # c)
                        IN Answer([CloseAll(s, same) EXCEPT !.ctl[c].inst = e[3]], c, NOT)
    [] e[1] = "setcfg" -> IF Read(S, s.disk, e[3]) = FAILED THEN Answer(Load(S, s, e[3]), c, UP)
                          ELSE Answer(SendConfig(S, Load(S, s, e[3])), c, DOWN)
    [] e[1] = "nki" -> Emit([s EXCEPT !.ctl[c].info = TRUE], <<23>>)
    [] e[1] \in {"ii", "io", "type"} ->
         LET x == S.exprs[e[3]] IN
         IF x.ok THEN Answer(Emit(s, <<IF e[1] = "ii" THEN 24 ELSE 25>> \o Flat(Complete(x.q))), c, DOWN)
         ELSE Answer(s, c, UP)
    [] OTHER -> s

RECURSIVE ReactAll(_, _, _)
ReactAll(S, s, es) == IF es = <<>> THEN s ELSE ReactAll(S, React(S, s, Head(es)), Tail(es))

\* messages of different connections are independent: first what the server
\* gets, then executed commands, what is shown and what the controls get
Sorted(o) ==
  SelectSeq(o, LAMBDA x : x[1] < 30 \/ x[1] = 42) \o SelectSeq(o, LAMBDA x : x[1] = 40) \o SelectSeq(o, LAMBDA x : x[1] = 41) \o
  SelectSeq(o, LAMBDA x : x[1] \in 30..33 /\ x[2] = 1) \o SelectSeq(o, LAMBDA x : x[1] \in 30..33 /\ x[2] = 2) \o
  SelectSeq(o, LAMBDA x : x[1] \in 30..33 /\ x[2] = 3)

Lose(s) == CloseAll(s, Where(s, LAMBDA x : TRUE))

\* what is sent is read after changes were detected
Sent == Requests \cup {"multi", "nki", "svk", "info", "act"}

\* the next state, obs is what is observed
StepClient(S, s0, ev) ==
  LET s == [s0 EXCEPT !.obs = <<>>]
      e == IF Possible(S, s, ev) THEN ev ELSE <<"loop">>
  IN
  CASE e[1] = "write" -> [s EXCEPT !.disk[e[2]] = e[3], !.dirty = IF e[2] \in s.watch THEN @ \cup {e[2]} ELSE @]
    \* together with what happens next
    [] e[1] = "win" /\ ~e[3] -> [s EXCEPT !.win = e[2]]
    [] ~s.started /\ e[1] # "start" -> s
    [] OTHER ->
       LET early == IF e[1] \in Sent THEN Detect(S, s) ELSE s
           r == CASE e[1] = "disc" -> Lose(React(S, early, e))
                  [] e[1] = "multi" -> ReactAll(S, early, e[3])
                  [] e[1] = "act" /\ e[2] < 10 /\ ~Exists(Commands(S, early.eff), LAMBDA x : x[1] = e[2]) -> early
                  [] OTHER -> React(S, early, e)
           d == Detect(S, r)
           ctx == IF d.on THEN Active(S, d.eff, d.win) ELSE <<>>
       IN [d EXCEPT !.auto = Automatic(S, d.eff), !.sctx = ctx,
                 !.obs = Append(Sorted(d.obs), <<21>> \o ctx)]
=============================================================================
