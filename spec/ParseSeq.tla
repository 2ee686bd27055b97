------------------------------ MODULE ParseSeq ------------------------------
(***************************************************************************)
(* Translation of input and output expressions to event sequences.         *)
(*                                                                         *)
(* An expression is a list of tokens, each a record [t |-> kind, ...]. The *)
(* translation is a machine which consumes one token after the other;      *)
(* Outcome is what the expression consisting of the tokens so far means.   *)
(* An invalid token makes the expression invalid for good, an open group   *)
(* only until it is closed.                                                *)
(***************************************************************************)
EXTENDS Keys, KeyNames

T_KEY == 1  T_NOT == 2  T_TIME == 3  T_NOTTIME == 4  T_STR == 5  T_CMD == 6
T_REL == 7  T_NMM == 8  T_OPEN == 9  T_CLOSE == 10  T_HOLD == 11  T_UNHOLD == 12
T_END == 13  T_BAD == 14

MaxTimeout == 4095
FirstAction == 61952
AtMost(a, b) == IF a < b THEN a ELSE b

K_SHIFT == 62208  K_CONTROL == 62209  K_ALTL == 56  K_ALTR == 100

\* seq: events so far, buf: keys which can become a hold, pr: keys held,
\* bef: number of keys held before each open hold, grp: open holds
InitParse(in) == [in |-> in, seq |-> <<>>, buf |-> <<>>, pr |-> <<>>, bef |-> <<>>,
  nmm |-> FALSE, oor |-> FALSE, tog |-> FALSE, grp |-> 0, mod |-> FALSE,
  done |-> FALSE, err |-> FALSE, cmds |-> <<>>]

Fail(m) == [InitParse(m.in) EXCEPT !.err = TRUE]

HasDown(q) == Exists(q, LAMBDA e : e[2] = DOWN /\ e[1] # K_TIMEOUT)
Events(keys, s) == [i \in 1..Len(keys) |-> Ev(keys[i], s)]
Without(keys, drop) == SelectSeq(keys, LAMBDA k : ~Contains(drop, k))
Released(m) == IF m.in THEN UPA ELSE UP

\* press the buffered keys, and release them unless they are held from now on
Flush(m, release) ==
  LET downs == m.seq \o Events(m.buf, DOWN) IN
  IF release
  THEN [m EXCEPT !.seq = downs \o Events(m.buf, Released(m)), !.buf = <<>>,
                 !.pr = IF m.in THEN @ ELSE Without(@, m.buf)]
  ELSE [m EXCEPT !.seq = downs, !.buf = <<>>, !.pr = @ \o m.buf]

\* release held keys, last one first, until only n are held
ReleaseTo(m, n) ==
  IF Len(m.pr) <= n THEN m
  ELSE [m EXCEPT !.seq = @ \o Events(Reverse(SubSeq(m.pr, n + 1, Len(m.pr))), Released(m)),
                 !.pr = SubSeq(@, 1, n)]

\* keys which may be released after a not-timeout have to be released
SyncNotTimeout(m) ==
  LET q == m.seq
      x == LastIdx(q, LAMBDA e : e[2] # UPA)
  IN IF m.in /\ x # 0 /\ q[x][1] = K_TIMEOUT /\ IsNotTimeout(q[x][2])
     THEN [m EXCEPT !.seq = @ \o [i \in 1..(Len(q) - x) |-> Ev(q[x + i][1], UP)]]
     ELSE m

-----------------------------------------------------------------------------
(* strings *)

\* <<key, modifiers>> with Shift 1, Alt 2, AltGr 4, Control 8
LetterKeys == <<30, 48, 46, 32, 18, 33, 34, 35, 23, 36, 37, 38, 50, 49, 24, 25, 16, 19, 31, 20, 22, 47, 17, 45, 21, 44>>
HexKeys == <<82, 79, 80, 81, 75, 76, 77, 71, 72, 73, 30, 48, 46, 32, 18, 33>>

RECURSIVE Hex(_)
Hex(c) == IF c = 0 THEN <<>> ELSE Append(Hex(c \div 16), <<HexKeys[(c % 16) + 1], 0>>)

\* key strokes of a character (of a US layout, others by their number)
Typed(c) ==
  IF c >= 97 /\ c <= 122 THEN <<<<LetterKeys[c - 96], 0>>>>
  ELSE IF c >= 65 /\ c <= 90 THEN <<<<LetterKeys[c - 64], 1>>>>
  ELSE IF c = 48 THEN <<<<11, 0>>>>
  ELSE IF c >= 49 /\ c <= 57 THEN <<<<c - 47, 0>>>>
  ELSE IF c = 32 THEN <<<<57, 0>>>>
  ELSE IF c = 9 THEN <<<<15, 0>>>>
  ELSE IF c = 13 THEN <<<<28, 0>>>>
  ELSE IF c = 63 THEN <<<<53, 1>>>>
  ELSE <<<<22, 9>>>> \o Hex(c) \o <<<<57, 0>>>>

\* \n and \r mean Enter, \t means Tab
RECURSIVE Unescape(_)
Unescape(s) ==
  IF Len(s) < 2 THEN s
  ELSE IF s[1] = 92 /\ s[2] \in {110, 114} THEN <<13>> \o Unescape(SubSeq(s, 3, Len(s)))
  ELSE IF s[1] = 92 /\ s[2] = 116 THEN <<9>> \o Unescape(SubSeq(s, 3, Len(s)))
  ELSE <<s[1]>> \o Unescape(Tail(s))

Strokes(s) == FlattenSeq([i \in 1..Len(Unescape(s)) |-> Typed(Unescape(s)[i])])

Modifiers == <<<<1, K_SHIFT>>, <<2, K_ALTL>>, <<4, K_ALTR>>, <<8, K_CONTROL>>>>
HasMod(ms, b) == (ms \div b) % 2 = 1
\* modifier changes between two strokes
InMod(b, key, ms, prev, first) ==
  IF HasMod(ms, b)
  THEN (IF HasMod(prev, b) THEN <<Ev(key, UPA)>> ELSE <<>>) \o <<Ev(key, DOWNA), Ev(key, DOWN)>>
  ELSE (IF first THEN <<Ev(key, NOT)>> ELSE <<>>) \o (IF HasMod(prev, b) THEN <<Ev(key, UP)>> ELSE <<>>)
OutMod(b, key, ms, prev) ==
  IF HasMod(ms, b) = HasMod(prev, b) THEN <<>> ELSE <<Ev(key, IF HasMod(ms, b) THEN DOWN ELSE UP)>>
StringEvents(in, group, st) ==
  LET prev(i) == IF i = 1 THEN 0 ELSE st[i - 1][2]
      mods(i) == FlattenSeq([j \in 1..4 |->
        IF in THEN (IF group THEN <<>> ELSE InMod(Modifiers[j][1], Modifiers[j][2], st[i][2], prev(i), i = 1))
        ELSE OutMod(Modifiers[j][1], Modifiers[j][2], st[i][2], prev(i))])
      last == IF st = <<>> THEN 0 ELSE Back(st)[2]
  IN (IF in \/ group THEN <<>> ELSE <<Ev(K_ANY, NOT)>>) \o
     FlattenSeq([i \in 1..Len(st) |->
       mods(i) \o <<Ev(st[i][1], DOWN), Ev(st[i][1], IF in THEN UPA ELSE UP)>>]) \o
     FlattenSeq([j \in 1..4 |-> IF HasMod(last, Modifiers[j][1])
       THEN <<Ev(Modifiers[j][2], IF in THEN UPA ELSE UP)>> ELSE <<>>])

-----------------------------------------------------------------------------
(* tokens *)

KeyStep(m, k) == LET f == IF m.tog THEN m ELSE Flush(m, TRUE) IN [f EXCEPT !.buf = Append(@, k)]

NotStep(m, k) ==
  IF m.tog \/ (m.in /\ m.grp > 0 /\ ~Contains(m.buf, k)) THEN Fail(m)
  ELSE LET f == Flush(m, m.in)
           held == Contains(f.pr, k)
           q == IF held /\ m.in THEN Append(f.seq, Ev(k, UPA)) ELSE f.seq
           p == LastIdx(q, LAMBDA e : e[1] = k)
       IN [f EXCEPT !.pr = Without(@, <<k>>),
            !.seq = IF m.in /\ q # <<>> /\ Back(q) = Ev(k, UPA) THEN [q EXCEPT ![Len(q)] = Ev(k, UP)]
                    \* a key which was pressed before has to be released
                    ELSE IF m.in /\ p # 0 /\ q[p][2] \notin {UP, NOT} THEN Append(q, Ev(k, UP))
                    ELSE Append(q, Ev(k, NOT))]

TimeStep(m, ms, not) ==
  IF m.tog \/ (m.nmm /\ ~not) \/ (~m.in /\ not) THEN Fail(m)
  ELSE LET f == Flush(m, TRUE)
           s == IF ~m.in THEN DOWN
                ELSE IF not THEN (IF m.grp > 0 THEN NTUD ELSE NOT)
                ELSE (IF m.grp > 0 THEN UP ELSE DOWN)
           v == AtMost(ms, MaxTimeout)
           q == f.seq
       IN IF m.in /\ ~HasDown(q) THEN Fail(m)
          ELSE [f EXCEPT !.seq =
            IF q # <<>> /\ Back(q)[1] = K_TIMEOUT /\ Back(q)[2] = s
            THEN [q EXCEPT ![Len(q)] = <<K_TIMEOUT, s, AtMost(@[3] + v, MaxTimeout)>>]
            ELSE Append(q, <<K_TIMEOUT, s, v>>)]

StringStep(m, chars) ==
  IF m.tog THEN Fail(m)
  ELSE LET f == Flush(m, TRUE)
           st == Strokes(chars)
       IN [f EXCEPT !.seq = @ \o StringEvents(m.in, m.grp > 0, st),
                    !.mod = @ \/ Exists(st, LAMBDA x : x[2] # 0)]

CommandStep(m, text) ==
  IF m.in \/ m.tog \/ m.grp > 0 THEN Fail(m)
  ELSE LET f == Flush(m, TRUE)
       IN [f EXCEPT !.seq = Append(@, Ev(FirstAction + Len(m.cmds), DOWN)), !.cmds = Append(@, text)]

HoldStep(m) ==
  IF m.tog THEN Fail(m)
  ELSE LET f == Flush(m, FALSE)
       IN IF f.pr = <<>> THEN Fail(m)
          ELSE [f EXCEPT !.bef = Append(@, Len(m.pr)), !.grp = @ + 1, !.mod = TRUE]

UnholdStep(m) ==
  IF m.tog \/ m.grp = 0 THEN Fail(m)
  ELSE LET r == ReleaseTo(Flush(m, TRUE), Back(m.bef))
       IN SyncNotTimeout([r EXCEPT !.bef = Front(@), !.grp = @ - 1])

\* a key is given by name, number of the virtual key or by its code
KeyOf(tok) == IF "c" \in DOMAIN tok THEN tok.c
              ELSE IF "v" \in DOMAIN tok THEN VirtualKey(tok.v) ELSE KeyByName(tok.n)

StepParse(m, tok) ==
  IF m.err \/ m.done THEN m
  ELSE CASE tok.t = T_KEY -> KeyStep(m, KeyOf(tok))
         [] tok.t = T_NOT -> NotStep(m, KeyOf(tok))
         [] tok.t = T_TIME -> TimeStep(m, tok.ms, FALSE)
         [] tok.t = T_NOTTIME -> TimeStep(m, tok.ms, TRUE)
         [] tok.t = T_STR -> StringStep(m, tok.s)
         [] tok.t = T_CMD -> CommandStep(m, tok.s)
         [] tok.t = T_REL -> IF m.in \/ m.oor \/ m.tog \/ m.grp > 0 THEN Fail(m)
                             ELSE LET f == Flush(m, TRUE)
                                  IN [f EXCEPT !.seq = Append(@, Ev(K_NONE, OOR)), !.oor = TRUE]
         [] tok.t = T_NMM -> IF ~m.in \/ m.seq # <<>> \/ m.buf # <<>> \/ m.tog THEN Fail(m)
                             ELSE [m EXCEPT !.seq = <<Ev(K_NONE, NMM)>>, !.nmm = TRUE]
         [] tok.t = T_OPEN -> IF m.tog THEN Fail(m) ELSE [Flush(m, TRUE) EXCEPT !.tog = TRUE]
         [] tok.t = T_CLOSE -> IF ~m.tog THEN Fail(m)
                               ELSE [m EXCEPT !.tog = FALSE,
                                       !.seq = IF m.in THEN @ \o Events(m.buf, DOWNA) ELSE @]
         [] tok.t = T_HOLD -> HoldStep(m)
         [] tok.t = T_UNHOLD -> UnholdStep(m)
         [] tok.t = T_END -> [m EXCEPT !.done = TRUE]
         [] OTHER -> Fail(m)

-----------------------------------------------------------------------------
(* outcome *)

DropBack(q, s) == SubSeq(q, 1, LastIdx(q, LAMBDA e : e[2] # s))

\* all keys are pressed before the first one is released
AtOnce(q) == LET u == First(q, LAMBDA e : e[2] = UP)
             IN u = 0 \/ \A i \in u..Len(q) : q[i][2] # DOWN

\* <<valid, sequence, commands>>
Outcome(m) ==
  LET f == Flush(m, TRUE)
      r == IF m.in THEN (IF m.nmm THEN DropBack(f.seq, UPA) ELSE f.seq)
           ELSE LET q == ReleaseTo(f, 0).seq
                \* keys of a plain output are held as long as the input
                IN IF ~m.mod /\ AtOnce(q) THEN DropBack(q, UP) ELSE q
      ctx == Exists(r, LAMBDA e : e[1] = K_CTX)
      bad == \/ m.err \/ m.tog \/ m.grp > 0
             \/ m.in /\ ~HasDown(r)
             \/ m.nmm /\ Exists(r, LAMBDA e : IsVirtual(e[1]))
             \/ ctx /\ (~m.in \/ Len(r) # 2 \/ m.nmm)
  IN IF bad THEN <<FALSE, <<>>, <<>>>>
     ELSE <<TRUE, IF ctx THEN <<r[1]>> ELSE r, m.cmds>>

ObsParse(m) == LET o == Outcome(m) IN
  IF ~o[1] THEN <<<<0>>>>
  ELSE <<<<1>>>> \o o[2] \o [i \in 1..Len(o[3]) |-> <<-1>> \o o[3][i]]
=============================================================================
