------------------------------ MODULE Compile -------------------------------
(***************************************************************************)
(* Meaning of a configuration file.                                        *)
(*                                                                         *)
(* A file is a list of lines, each a record [l |-> kind, w |-> number of   *)
(* physical lines, ...]. StepLine consumes one line after the other,       *)
(* Meaning is what the file consisting of the lines so far means: an error *)
(* at a line, or a list of blocks. Each block has alternative filters, one *)
(* of which has to match, mappings and outputs of commands. No block of    *)
(* another system, no logical key and no alias is left over.               *)
(*                                                                         *)
(* Expressions are lists of the tokens of ParseSeq, where names of keys    *)
(* may also be names of logical keys, aliases or commands. Further tokens: *)
(*   [t |-> T_APP, n, a]  an alias with arguments,                         *)
(*   [t |-> T_PAR, i]     one of its parameters                            *)
(* Strings and terminal commands may have parts [s] or [n, s] (field q),   *)
(* where n is an alias to insert.                                          *)
(***************************************************************************)
EXTENDS ParseSeq

T_PAR == 20  T_APP == 21  T_NUM == 22  T_FATAL == 23

L_MAP == 1  L_CONTEXT == 2  L_STAGE == 3  L_DEFAULT == 4  L_LOGICAL == 5  L_ALIAS == 6
L_BLANK == 7  L_BAD == 8  L_LOWER == 9  L_UNMAPPED == 10  L_FORWARD == 11  L_DONE == 12
L_GRAB == 13  L_OPTION == 14  L_SERVER == 15  L_INCLUDE == 16  L_BADDIR == 17  L_APPLY == 18

FirstLogical == 62208
NoFilters == [f |-> [k \in 1..5 |-> <<>>], m |-> <<>>, inv |-> FALSE]
EmptyBlock == [flt |-> NoFilters, sys |-> TRUE, stage |-> FALSE, ft |-> FALSE,
               maps |-> <<>>, outs |-> <<>>, cout |-> <<>>]

InitFile == [
  ctx |-> <<[EmptyBlock EXCEPT !.stage = TRUE]>>,
  cmd |-> <<>>,        \* [n, mapped]
  mac |-> <<>>,        \* [n, nc, v]
  log |-> <<[n |-> "Shift", l |-> 42, r |-> 54], [n |-> "Control", l |-> 29, r |-> 97],
            [n |-> "Alt", l |-> 56, r |-> 100], [n |-> "Meta", l |-> 125, r |-> 126]>>,
  sys |-> TRUE, open |-> FALSE, lower |-> FALSE, unm |-> FALSE, done |-> FALSE,
  fwd |-> <<>>, acts |-> <<>>, grab |-> <<>>, opts |-> <<>>, dirs |-> <<>>, inc |-> 0,
  line |-> 0, err |-> <<>>]

Bad(s) == [s EXCEPT !.err = <<0, s.line, IF s.inc > 0 THEN 1 ELSE 0>>]

-----------------------------------------------------------------------------
(* names *)

LogicalIdx(s, n) == LastIdx(s.log, LAMBDA e : e.n = n)
\* code of a key, 0 when there is no such key
Resolve(s, n) == LET i == LogicalIdx(s, n) IN
  IF i # 0 THEN FirstLogical + i - 1 ELSE IF IsKeyName(n) THEN KeyByName(n) ELSE 0
CodeOf(s, tok) == IF "n" \in DOMAIN tok THEN Resolve(s, tok.n) ELSE KeyOf(tok)
IsNamed(tok) == tok.t \in {T_KEY, T_NOT} /\ "n" \in DOMAIN tok
MacroIdx(s, n) == First(s.mac, LAMBDA e : e.n = n)
CommandIdx(s, n) == First(s.cmd, LAMBDA e : e.n = n)

-----------------------------------------------------------------------------
(* substitution of aliases *)

BadTok == [t |-> T_BAD]
\* an alias refers to itself or is not known
Fatal == [t |-> T_FATAL]
HasFatal(q) == Exists(q, LAMBDA x : x.t = T_FATAL)

Negate(q) ==
  IF HasFatal(q) THEN <<Fatal>>
  ELSE IF q = <<>> THEN <<BadTok>>
  ELSE <<IF q[1].t = T_KEY THEN [q[1] EXCEPT !.t = T_NOT]
         ELSE IF q[1].t = T_TIME THEN [q[1] EXCEPT !.t = T_NOTTIME] ELSE BadTok>> \o Tail(q)

\* parts of a string. Names which are not aliases (yet) are left as they are
RECURSIVE Interpolate(_, _, _)
Interpolate(s, tok, depth) ==
  IF "q" \notin DOMAIN tok THEN tok
  ELSE LET value(p) == IF "n" \in DOMAIN p THEN MacroIdx(s, p.n) ELSE 0
           part(p) ==
             LET i == value(p) IN
             IF i = 0 \/ Len(s.mac[i].v) # 1 \/ s.mac[i].v[1].t # T_STR THEN <<TRUE, <<p>>>>
             ELSE IF depth > 6 THEN <<FALSE, <<>>>>
             ELSE LET r == Interpolate(s, s.mac[i].v[1], depth + 1) IN
                  IF r.t = T_FATAL THEN <<FALSE, <<>>>> ELSE <<TRUE, r.q>>
           ps == [i \in 1..Len(tok.q) |-> part(tok.q[i])]
       IN IF Exists(ps, LAMBDA p : ~p[1]) THEN Fatal
          ELSE [t |-> tok.t, q |-> FlattenSeq([i \in 1..Len(ps) |-> ps[i][2]])]
Text(tok) == IF "q" \in DOMAIN tok THEN [t |-> tok.t, s |-> FlattenSeq([i \in 1..Len(tok.q) |-> tok.q[i].s])] ELSE tok

RECURSIVE Substitute(_, _)
Substitute(q, args) == FlattenSeq([i \in 1..Len(q) |->
  IF q[i].t = T_APP THEN <<[q[i] EXCEPT !.a = [j \in 1..Len(@) |-> Substitute(@[j], args)]]>>
  ELSE IF q[i].t # T_PAR THEN <<q[i]>> ELSE IF q[i].i + 1 <= Len(args) THEN args[q[i].i + 1] ELSE <<>>])

RECURSIVE Repeated(_, _)
Repeated(q, n) == IF n <= 0 THEN <<>> ELSE q \o Repeated(q, n - 1)

IsNum(q) == Len(q) = 1 /\ q[1].t = T_NUM
Num(i) == <<[t |-> T_NUM, i |-> i]>>
Abs(i) == IF i < 0 THEN -i ELSE i
\* rounds towards zero
Quotient(a, b) == (IF (a < 0) = (b < 0) THEN 1 ELSE -1) * (Abs(a) \div Abs(b))
Arithmetic(n, a, b) ==
  CASE n = "add" -> Num(a + b)
    [] n = "sub" -> Num(a - b)
    [] n = "mul" -> Num(a * b)
    [] n = "min" -> Num(IF a < b THEN a ELSE b)
    [] n = "max" -> Num(IF a > b THEN a ELSE b)
    [] n = "div" -> IF b = 0 THEN <<>> ELSE Num(Quotient(a, b))
    [] n = "mod" -> IF b = 0 THEN <<>> ELSE Num(a - b * Quotient(a, b))
Builtin(n, args) ==
  IF n = "length"
  THEN IF Len(args) = 1 /\ Len(args[1]) = 1 /\ args[1][1].t = T_STR
       THEN Num(FoldLeft(LAMBDA x, p : x + Len(p.s), 0, args[1][1].q)) ELSE <<Fatal>>
  ELSE IF Len(args) # 2 THEN <<Fatal>>
  ELSE IF n = "repeat" THEN (IF IsNum(args[2]) THEN Repeated(args[1], args[2][1].i) ELSE <<Fatal>>)
  ELSE IF n = "default" THEN (IF args[1] # <<>> THEN args[1] ELSE args[2])
  ELSE IF n \in {"add", "sub", "mul", "div", "mod", "min", "max"}
  THEN (IF IsNum(args[1]) /\ IsNum(args[2]) THEN Arithmetic(n, args[1][1].i, args[2][1].i) ELSE <<Fatal>>)
  ELSE <<Fatal>>

\* tokens which an expression consists of. When an alias is defined, aliases
\* with arguments are not yet inserted
RECURSIVE Expand(_, _, _, _), ExpandTok(_, _, _, _)
Expand(s, q, def, depth) ==
  IF q = <<>> THEN <<>>
  ELSE ExpandTok(s, Head(q), def, depth) \o Expand(s, Tail(q), def, depth)
ExpandTok(s, tok, def, depth) ==
  IF depth > 6 THEN <<Fatal>>
  ELSE IF IsNamed(tok)
  THEN LET i == MacroIdx(s, tok.n) IN
       IF i = 0 THEN <<tok>>
       ELSE LET r == Expand(s, s.mac[i].v, FALSE, depth + 1)
            IN IF tok.t = T_NOT THEN Negate(r) ELSE r
  ELSE IF tok.t = T_APP /\ ~def
  THEN LET args == [i \in 1..Len(tok.a) |-> Expand(s, tok.a[i], FALSE, depth + 1)]
           i == MacroIdx(s, tok.n)
       IN IF Exists(args, HasFatal) THEN <<Fatal>>
          ELSE IF i # 0 THEN Expand(s, Substitute(s.mac[i].v, args), FALSE, depth + 1)
          ELSE Builtin(tok.n, args)
  ELSE <<Interpolate(s, tok, depth)>>

\* <<valid, events, terminal commands>>
Translate(s, q, in) ==
  LET key(tok) == LET c == CodeOf(s, tok) IN IF c = 0 THEN BadTok ELSE [t |-> tok.t, c |-> c]
      r == [i \in 1..Len(q) |-> IF IsNamed(q[i]) THEN key(q[i]) ELSE Text(q[i])]
      o == Outcome(FoldLeft(StepParse, InitParse(in), r))
      renumber(e) == IF IsAction(e[1]) THEN <<e[1] + Len(s.acts), e[2], e[3]>> ELSE e
  IN <<o[1] /\ Len(s.acts) + Len(o[3]) <= 256, [i \in 1..Len(o[2]) |-> renumber(o[2][i])], o[3]>>

-----------------------------------------------------------------------------
(* lines *)

\* a command is a name which is not a key, and nothing else
IsCommandName(s, q) ==
  Len(q) = 1 /\ q[1].t = T_KEY /\ "n" \in DOMAIN q[1] /\ Resolve(s, q[1].n) = 0 /\ (~s.lower \/ q[1].low)
IsLowerCase(q) == Len(q) = 1 /\ q[1].t = T_KEY /\ "low" \in DOMAIN q[1] /\ q[1].low

InCurrent(s, Op(_)) == [s EXCEPT !.ctx[Len(s.ctx)] = Op(@)]

OutputOfCommand(s, n, o) ==
  LET c == CommandIdx(s, n)
      cur == Back(s.ctx)
  IN IF ~o[1] \/ Exists(cur.cout, LAMBDA e : e.c = c) THEN Bad(s)
     ELSE [InCurrent(s, LAMBDA b : [b EXCEPT !.cout = Append(@, [o |-> o[2], c |-> c])])
           EXCEPT !.acts = @ \o o[3], !.cmd[c].mapped = TRUE]

MapLine(s, ln) ==
  LET in == Expand(s, ln.in, FALSE, 0)
      out == Expand(s, ln.out, FALSE, 0)
      single == Len(in) = 1 /\ IsNamed(in[1]) /\ in[1].t = T_KEY
  IN IF single /\ CommandIdx(s, in[1].n) # 0
     THEN OutputOfCommand(s, in[1].n, Translate(s, out, FALSE))
     ELSE IF single /\ IsLowerCase(in)
     THEN LET o == Translate(s, out, FALSE)
          IN IF ~s.unm \/ ~o[1] THEN Bad(s) ELSE [s EXCEPT !.acts = @ \o o[3]]
     ELSE LET i == Translate(s, in, TRUE) IN
          IF ~i[1] THEN Bad(s)
          ELSE IF IsCommandName(s, out)
          THEN LET n == out[1].n
                   c == CommandIdx(s, n)
                   idx == IF c = 0 THEN Len(s.cmd) + 1 ELSE c
                   t == IF c = 0 THEN [s EXCEPT !.cmd = Append(@, [n |-> n, mapped |-> FALSE])] ELSE s
               IN InCurrent(t, LAMBDA b : [b EXCEPT !.maps = Append(@, [i |-> i[2], o |-> 0, c |-> idx])])
          ELSE LET o == Translate(s, out, FALSE) IN
               IF ~o[1] THEN Bad(s)
               ELSE [InCurrent(s, LAMBDA b : [b EXCEPT !.maps = Append(@, [i |-> i[2], o |-> Len(b.outs) + 1, c |-> 0]),
                                                       !.outs = Append(@, o[2])])
                     EXCEPT !.acts = @ \o o[3]]

\* modifiers of a filter, only the first mention of a key counts
RECURSIVE ModifierList(_, _, _)
ModifierList(s, q, r) ==
  IF q = <<>> THEN <<TRUE, r>>
  ELSE LET tok == Head(q)
           c == IF tok.t \in {T_KEY, T_NOT} THEN CodeOf(s, tok) ELSE 0
       IN IF c = 0 \/ c = K_CTX THEN <<FALSE, <<>>>>
          ELSE ModifierList(s, Tail(q), IF Exists(r, LAMBDA e : e[1] = c) THEN r
                                        ELSE Append(r, Ev(c, IF tok.t = T_NOT THEN NOT ELSE DOWN)))

\* the last one of several filters of a kind counts
LastOfKind(fs) == [k \in 1..5 |-> LET x == LastIdx(fs, LAMBDA f : f.k = k) IN IF x = 0 THEN <<>> ELSE
  <<k, IF fs[x].inv THEN 1 ELSE 0, IF fs[x].rx THEN 1 ELSE 0>> \o fs[x].p]

\* blocks without lines in between share the mappings of the last one
OpenBlock(s, b) ==
  LET q == IF s.open THEN [s.ctx EXCEPT ![Len(s.ctx)].ft = TRUE] ELSE s.ctx
  IN [s EXCEPT !.ctx = Append(q, b), !.sys = b.sys, !.open = TRUE]

ContextLine(s, ln) ==
  LET m == ModifierList(s, Expand(s, ln.m, FALSE, 0), <<>>) IN
  IF ~m[1] THEN Bad(s)
  ELSE OpenBlock(s, [EmptyBlock EXCEPT !.sys = ln.sys,
                       !.flt = [f |-> LastOfKind(ln.f), m |-> m[2], inv |-> ln.inv]])

\* a key of a definition is the name of a key, of an alias of it or a virtual key
DefinedKey(s, tok) ==
  LET q == Expand(s, <<tok>>, FALSE, 0) IN
  IF Len(q) = 1 /\ q[1].t = T_KEY THEN CodeOf(s, q[1]) ELSE 0

\* left | right | ... pairwise
RECURSIVE Pairs(_, _, _, _)
Pairs(log, n, left, ks) ==
  IF Len(ks) = 1 THEN Append(log, [n |-> n, l |-> left, r |-> ks[1]])
  ELSE Pairs(Append(log, [n |-> "$", l |-> left, r |-> ks[1]]), n, FirstLogical + Len(log), Tail(ks))

SetAlias(s, ln, v) ==
  LET i == MacroIdx(s, ln.n)
      e == [n |-> ln.n, nc |-> ln.nc, v |-> v]
  IN IF HasFatal(v) THEN Bad(s)
     ELSE IF i = 0 THEN [s EXCEPT !.mac = Append(@, e)]
     ELSE IF s.sys THEN [s EXCEPT !.mac[i] = e] ELSE s

LogicalLine(s, ln) ==
  LET known == LogicalIdx(s, ln.n) # 0
      ks == [i \in 1..Len(ln.k) |-> DefinedKey(s, ln.k[i])]
      text == FlattenSeq([i \in 1..Len(ln.k) |-> IF i = 1 THEN <<ln.k[i]>> ELSE <<BadTok, ln.k[i]>>])
  IN \* not a definition but an alias which is of no use
     IF (~known /\ Resolve(s, ln.n) # 0) \/ ks[1] = 0
     THEN SetAlias(s, ln, Expand(s, text, TRUE, 0))
     ELSE IF Exists(ks, LAMBDA k : k = 0) THEN Bad(s)
     ELSE IF s.sys \/ ~known THEN [s EXCEPT !.log = Pairs(@, ln.n, ks[1], Tail(ks))]
     ELSE s

\* physical keys of a key
RECURSIVE Physical(_, _)
Physical(s, k) ==
  IF k < FirstLogical THEN <<k>>
  ELSE LET e == s.log[k - FirstLogical + 1] IN Physical(s, e.l) \o Physical(s, e.r)

RECURSIVE Unique(_)
Unique(q) == IF q = <<>> THEN <<>>
             ELSE IF Contains(Front(q), Back(q)) THEN Unique(Front(q)) ELSE Append(Unique(Front(q)), Back(q))

ForwardLine(s, ln) ==
  LET q == Expand(s, ln.k, FALSE, 0)
      code(tok) == IF tok.t = T_KEY THEN CodeOf(s, tok) ELSE 0
      valid(c) == c >= FirstLogical \/ IsDevice(c)
      cs == [i \in 1..Len(q) |-> code(q[i])]
  IN IF Exists(cs, LAMBDA c : ~valid(c)) THEN Bad(s)
     ELSE [s EXCEPT !.fwd = Unique(FlattenSeq([i \in 1..Len(cs) |-> Physical(s, cs[i])]))]

RECURSIVE StepLine(_, _), StepLines(_, _)
StepLines(s, lns) == IF lns = <<>> THEN s ELSE StepLines(StepLine(s, Head(lns)), Tail(lns))

IncludeLine(s, ln) ==
  IF s.inc >= 10 THEN Bad(s)
  ELSE LET t == StepLines([s EXCEPT !.inc = @ + 1, !.line = 0], ln.lines)
       IN IF t.err # <<>> THEN t ELSE [t EXCEPT !.inc = s.inc, !.line = s.line]

Directive(s, ln) ==
  CASE ln.l = L_BADDIR -> Bad(s)
    [] ln.l = L_LOWER -> [s EXCEPT !.lower = ln.v]
    [] ln.l = L_UNMAPPED -> [s EXCEPT !.unm = ln.v]
    [] ln.l = L_FORWARD -> ForwardLine(s, ln)
    [] ln.l = L_DONE -> [s EXCEPT !.done = TRUE]
    [] ln.l = L_GRAB -> [s EXCEPT !.grab = Append(@, <<IF ln.id THEN 1 ELSE 0, IF ln.inv THEN 1 ELSE 0, IF ln.rx THEN 1 ELSE 0>> \o ln.p)]
    [] ln.l = L_OPTION -> [s EXCEPT !.opts = @ \o ln.o]
    [] ln.l = L_SERVER -> IF ln.v THEN [s EXCEPT !.dirs = Append(@, ln.p)] ELSE s
    [] ln.l = L_INCLUDE -> IncludeLine(s, ln)

StepLine(s0, ln) ==
  LET s == [s0 EXCEPT !.line = @ + ln.w] IN
  IF s.err # <<>> \/ s.done THEN s0
  ELSE CASE ln.l = L_MAP -> [MapLine(s, ln) EXCEPT !.open = FALSE]
         \* one mapping for each of the arguments
         [] ln.l = L_APPLY -> [FoldLeft(LAMBDA x, m : IF x.err # <<>> THEN x ELSE MapLine(x, m), s, ln.maps) EXCEPT !.open = FALSE]
         [] ln.l = L_CONTEXT -> ContextLine(s, ln)
         [] ln.l = L_STAGE -> [s EXCEPT !.ctx = Append(@, [EmptyBlock EXCEPT !.stage = TRUE]), !.sys = TRUE, !.open = FALSE]
         [] ln.l = L_DEFAULT -> OpenBlock(s, EmptyBlock)
         [] ln.l = L_LOGICAL -> LogicalLine(s, ln)
         [] ln.l = L_ALIAS -> SetAlias(s, ln, Expand(s, ln.v, TRUE, 0))
         [] ln.l = L_BLANK -> [s EXCEPT !.open = FALSE]
         [] ln.l = L_BAD -> Bad(s)
         \* directives of other systems are not even looked at
         [] OTHER -> IF s.sys THEN Directive(s, ln)
                     ELSE IF ln.l = L_FORWARD /\ HasFatal(Expand(s, ln.k, FALSE, 0)) THEN Bad(s) ELSE s

-----------------------------------------------------------------------------
(* blocks which have an effect: [sn |-> stage, alts, maps, outs, cout] *)

ForwardMaps(s, b) ==
  IF ~b.stage THEN b
  ELSE LET n == Len(b.outs) IN
       [b EXCEPT !.outs = @ \o [i \in 1..Len(s.fwd) |-> <<Ev(s.fwd[i], DOWN)>>],
                 !.maps = [i \in 1..Len(s.fwd) |-> [i |-> <<Ev(s.fwd[i], DOWN), Ev(s.fwd[i], UPA)>>, o |-> n + i, c |-> 0]] \o @]

RECURSIVE Effective(_, _, _, _)
Effective(bs, alts, sn, r) ==
  IF bs = <<>> THEN r
  ELSE LET b == Head(bs)
           a == IF b.sys THEN Append(alts, b.flt) ELSE alts
           n == IF b.stage THEN sn + 1 ELSE sn
       IN IF b.ft THEN Effective(Tail(bs), a, n, r)
          ELSE Effective(Tail(bs), <<>>, n,
                 IF a = <<>> \/ (b.maps = <<>> /\ b.cout = <<>>) THEN r
                 ELSE Append(r, [sn |-> n, alts |-> a, maps |-> b.maps, outs |-> b.outs, cout |-> b.cout]))

-----------------------------------------------------------------------------
(* logical keys *)

HasKey(q, k) == Exists(q, LAMBDA e : e[1] = k)
WithKey(q, k, to) == [i \in 1..Len(q) |-> IF q[i][1] = k THEN <<to, q[i][2], q[i][3]>> ELSE q[i]]
\* not the logical key means none of its keys
WithNots(q, k, e) == FlattenSeq([i \in 1..Len(q) |->
  IF q[i] = Ev(k, NOT) THEN <<Ev(e.l, NOT), Ev(e.r, NOT)>> ELSE <<q[i]>>])

\* a mapping of a logical key is a mapping of each of its keys. The output
\* uses the same key as the input
RECURSIVE SplitMaps(_, _, _, _, _)
SplitMaps(maps, outs, k, e, r) ==
  IF maps = <<>> THEN [maps |-> r, outs |-> outs]
  ELSE LET m == Head(maps) IN
       IF ~HasKey(m.i, k) THEN SplitMaps(Tail(maps), outs, k, e, Append(r, m))
       ELSE LET own == m.o # 0 /\ HasKey(outs[m.o], k)
                left == [m EXCEPT !.i = WithKey(@, k, e.l)]
                right == [m EXCEPT !.i = WithKey(@, k, e.r), !.o = IF own THEN Len(outs) + 1 ELSE @]
            IN SplitMaps(Tail(maps), IF own THEN Append(outs, WithKey(outs[m.o], k, e.r)) ELSE outs,
                         k, e, r \o <<left, right>>)

WithoutLogical(b, k, e) ==
  LET nots(q) == WithNots(q, k, e)
      x == SplitMaps([i \in 1..Len(b.maps) |-> [b.maps[i] EXCEPT !.i = nots(@)]],
                     [i \in 1..Len(b.outs) |-> nots(b.outs[i])], k, e, <<>>)
  IN [b EXCEPT !.maps = x.maps,
       !.outs = [i \in 1..Len(x.outs) |-> WithKey(x.outs[i], k, e.l)],
       !.cout = [i \in 1..Len(b.cout) |-> [b.cout[i] EXCEPT !.o = WithKey(nots(@), k, e.l)]]]

RECURSIVE WithoutLogicals(_, _, _)
WithoutLogicals(log, b, n) ==
  IF n = 0 THEN b ELSE WithoutLogicals(log, WithoutLogical(b, FirstLogical + n - 1, log[n]), n - 1)

\* alternatives of physical modifiers, at least one of which has to be as stated
RECURSIVE Alternatives(_, _)
Alternatives(s, m) ==
  IF m = <<>> THEN {<<>>}
  ELSE LET e == Head(m)
           ph == Physical(s, e[1])
           mine == IF e[2] = NOT THEN {Events(ph, NOT)} ELSE {<<Ev(ph[i], DOWN)>> : i \in 1..Len(ph)}
       IN {a \o b : a \in mine, b \in Alternatives(s, Tail(m))}
FilterAlternatives(s, flt) ==
  IF flt.inv /\ Exists(flt.m, LAMBDA e : e[1] >= FirstLogical)
  THEN \* unless all are as stated
       {[flt EXCEPT !.m = a, !.inv = FALSE] : a \in UNION {
          Alternatives(s, <<Ev(flt.m[i][1], IF flt.m[i][2] = NOT THEN DOWN ELSE NOT)>>) : i \in 1..Len(flt.m)}}
  ELSE {[flt EXCEPT !.m = a] : a \in Alternatives(s, flt.m)}

-----------------------------------------------------------------------------
(* forwarded modifiers are released by outputs which do not mention them *)

Suppressed(q, k) == IF Contains(q, Ev(k, DOWN)) \/ Contains(q, Ev(k, NOT)) THEN q ELSE <<Ev(k, NOT)>> \o q

RECURSIVE SuppressAll(_, _)
SuppressAll(q, ks) == IF ks = <<>> THEN q ELSE SuppressAll(Suppressed(q, Head(ks)), Tail(ks))

SuppressForwarded(s, bs) ==
  LET uses(b, test(_), k) == Exists(b.maps, LAMBDA m : test(m) /\ Contains(m.i, Ev(k, DOWN)))
      ofOut(b, o) == SelectSeq(s.fwd, LAMBDA k : uses(b, LAMBDA m : m.o = o, k))
      ofCmd(c) == SelectSeq(s.fwd, LAMBDA k : Exists(bs, LAMBDA b : uses(b, LAMBDA m : m.c = c, k)))
  IN [i \in 1..Len(bs) |-> [bs[i] EXCEPT
       !.outs = [o \in 1..Len(@) |-> SuppressAll(@[o], ofOut(bs[i], o))],
       !.cout = [x \in 1..Len(@) |-> [@[x] EXCEPT !.o = SuppressAll(@, ofCmd(bs[i].cout[x].c))]]]]

-----------------------------------------------------------------------------
(* meaning *)

Blocks(s) ==
  LET bs == Effective([i \in 1..Len(s.ctx) |-> ForwardMaps(s, s.ctx[i])], <<>>, 0, <<>>)
      rs == [i \in 1..Len(bs) |-> WithoutLogicals(s.log, bs[i], Len(s.log))]
  IN SuppressForwarded(s, rs)

Failed(s) == s.err # <<>> \/ (~s.unm /\ Exists(s.cmd, LAMBDA c : ~c.mapped))

\* order of integer sequences
RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Before(Tail(a), Tail(b)))
SortedSeqs(S) == SetToSortSeq(S, Before)

\* the order of keys which are released first does not matter
SortedNots(q) ==
  LET x == First(q, LAMBDA e : e[2] # NOT)
      n == IF x = 0 THEN Len(q) ELSE x - 1
  IN SortSeq(SubSeq(q, 1, n), LAMBDA a, b : a[1] < b[1]) \o SubSeq(q, n + 1, Len(q))
Flat(q) == FlattenSeq(q)

\* the order of modifiers does not matter, nor do alternatives which imply others
Conditions(flt) == [flt EXCEPT !.m = ToSet(@)]
Weakest(S) == {a \in S : ~\E b \in S : ~a.inv /\ ~b.inv /\ a.f = b.f /\ b.m # a.m /\ b.m \subseteq a.m}

FilterObs(flt) ==
  FlattenSeq([k \in 1..Len(flt.f) |-> IF flt.f[k] = <<>> THEN <<>> ELSE <<-1>> \o flt.f[k]]) \o
  (IF flt.m = {} THEN <<>> ELSE <<-2, IF flt.inv THEN 1 ELSE 0>> \o Flat(SortedSeqs(flt.m)))

Meaning(s) ==
  IF s.err # <<>> THEN <<s.err>>
  ELSE IF Failed(s) THEN <<<<0, 0, 0>>>>
  ELSE
  LET bs == Blocks(s)
      used == Unique(FlattenSeq([i \in 1..Len(bs) |->
        [j \in 1..Len(bs[i].maps) |-> bs[i].maps[j].c] \o [j \in 1..Len(bs[i].cout) |-> bs[i].cout[j].c]]))
      names == SelectSeq(used, LAMBDA c : c # 0)
      number(c) == IF c = 0 THEN 0 ELSE First(names, LAMBDA x : x = c)
      block(i) ==
        LET b == bs[i]
            all == UNION {FilterAlternatives(s, b.alts[x]) : x \in 1..Len(b.alts)}
            alts == SortedSeqs({<<3>> \o FilterObs(a) : a \in Weakest({Conditions(a) : a \in all})})
            out(m) == IF m.c # 0 THEN <<>> ELSE SortedNots(b.outs[m.o])
        IN (IF i > 1 /\ bs[i - 1].sn # b.sn THEN <<<<2>>>> ELSE <<>>) \o alts \o
           [j \in 1..Len(b.maps) |-> <<6, number(b.maps[j].c)>> \o Flat(b.maps[j].i) \o <<-3>> \o Flat(out(b.maps[j]))] \o
           [j \in 1..Len(b.cout) |-> <<9, number(b.cout[j].c)>> \o Flat(SortedNots(b.cout[j].o))]
      virtual(e) == Len(e.v) = 1 /\ e.v[1].t = T_KEY /\ IsVirtual(CodeOf(s, e.v[1]))
      al == SelectSeq(s.mac, virtual)
  IN <<<<1>>>> \o FlattenSeq([i \in 1..Len(bs) |-> block(i)]) \o
     [i \in 1..Len(s.acts) |-> <<10>> \o s.acts[i]] \o
     SortedSeqs({<<11, CodeOf(s, al[i].v[1])>> \o al[i].nc : i \in 1..Len(al)}) \o
     [i \in 1..Len(s.grab) |-> <<12>> \o s.grab[i]] \o
     [i \in 1..Len(s.opts) |-> <<13, s.opts[i]>>] \o
     [i \in 1..Len(s.dirs) |-> <<14>> \o s.dirs[i]]
=============================================================================
