----------------------------- MODULE ParseTree ------------------------------
(***************************************************************************)
(* Meaning of expressions by their structure. All expressions up to a size *)
(* are written down as tokens, the machine of ParseSeq has to translate    *)
(* them to what the structure means.                                       *)
(*                                                                         *)
(* item:  [h |-> keys, g |-> together, b |-> items or NoBody]  keys, hold  *)
(*        [n |-> key]  negation,  [d |-> ms, m |-> negated]  timeout       *)
(***************************************************************************)
EXTENDS ParseSeq

NoBody == <<[x |-> 0]>>
Stroke(k) == [h |-> <<k>>, g |-> FALSE, b |-> NoBody]
KA == 30  KB == 48  KC == 46

Atoms == {Stroke(KA), Stroke(KB), [h |-> <<KA, KB>>, g |-> TRUE, b |-> NoBody], [h |-> <<KC>>, g |-> TRUE, b |-> NoBody]}
Marks == {[n |-> KA], [n |-> KC], [d |-> 100, m |-> FALSE], [d |-> 4000, m |-> FALSE], [d |-> 100, m |-> TRUE]}
Lists(S, len) == UNION {[1..i -> S] : i \in 0..len}
Heads == {Stroke(KA), Stroke(KC), [h |-> <<KB, KC>>, g |-> TRUE, b |-> NoBody]}
Holds(bodies) == {[a EXCEPT !.b = b] : a \in Heads, b \in bodies}
Level1 == Atoms \cup Marks
Level2 == Level1 \cup Holds(Lists(Level1, 1) \cup Lists(Atoms, 2))
Level3 == Atoms \cup Holds(Lists(Holds(Lists(Level1, 1)), 1) \cup {<<x, y>> : x \in Level1, y \in Holds(Lists(Level1, 1))})
Expressions == Lists(Level2, 2) \cup Lists(Level1, 4) \cup {<<x>> : x \in Level3} \cup {<<x, y>> : x \in Level1, y \in Level3}

-----------------------------------------------------------------------------
(* tokens *)

RECURSIVE Tokens(_)
TokenOf(i) ==
  IF "n" \in DOMAIN i THEN <<[t |-> T_NOT, c |-> i.n]>>
  ELSE IF "d" \in DOMAIN i THEN <<[t |-> IF i.m THEN T_NOTTIME ELSE T_TIME, ms |-> i.d]>>
  ELSE (IF i.g THEN <<[t |-> T_OPEN]>> ELSE <<>>) \o
       [j \in 1..Len(i.h) |-> [t |-> T_KEY, c |-> i.h[j]]] \o
       (IF i.g THEN <<[t |-> T_CLOSE]>> ELSE <<>>) \o
       (IF i.b = NoBody THEN <<>> ELSE <<[t |-> T_HOLD]>> \o Tokens(i.b) \o <<[t |-> T_UNHOLD]>>)
Tokens(l) == IF l = <<>> THEN <<>> ELSE TokenOf(Head(l)) \o Tokens(Tail(l))

-----------------------------------------------------------------------------
(* output expressions: l items, held keys; result <<events, held>> *)

IsKeys(i) == "h" \in DOMAIN i
IsNot(i) == "n" \in DOMAIN i
IsTime(i) == "d" \in DOMAIN i
Let(keys, held) == SelectSeq(held, LAMBDA k : ~Contains(keys, k))
\* adjacent delays add up
Merge(q) == LET RECURSIVE M(_)
                M(w) == IF Len(w) < 2 THEN w
                        ELSE IF w[1][1] = K_TIMEOUT /\ w[2][1] = K_TIMEOUT /\ w[1][2] = w[2][2]
                        THEN M(<<<<K_TIMEOUT, w[1][2], AtMost(w[1][3] + w[2][3], MaxTimeout)>>>> \o SubSeq(w, 3, Len(w)))
                        ELSE <<w[1]>> \o M(Tail(w))
            IN M(q)

RECURSIVE OutEv(_, _)
OutEv(l, held) ==
  IF l = <<>> THEN <<<<>>, held>>
  ELSE LET i == Head(l)
           \* a key before a negation stays pressed
           kept == Len(l) > 1 /\ IsNot(l[2])
           r == IF IsNot(i) THEN <<<<Ev(i.n, NOT)>>, Let(<<i.n>>, held)>>
                ELSE IF IsTime(i) THEN <<<<<<K_TIMEOUT, DOWN, i.d>>>>, held>>
                ELSE IF i.b # NoBody
                THEN LET b == OutEv(i.b, held \o i.h)
                         over == SubSeq(b[2], Len(held) + 1, Len(b[2]))
                     IN <<Events(i.h, DOWN) \o b[1] \o Events(Reverse(over), UP),
                          SubSeq(b[2], 1, AtMost(Len(held), Len(b[2])))>>
                ELSE IF kept THEN <<Events(i.h, DOWN), held \o i.h>>
                ELSE <<Events(i.h, DOWN) \o Events(i.h, UP), Let(i.h, held)>>
           rest == OutEv(Tail(l), r[2])
       IN <<r[1] \o rest[1], rest[2]>>

HasHold(l) == \E i \in 1..Len(l) : IsKeys(l[i]) /\ l[i].b # NoBody
HasNotTime(l) == LET RECURSIVE H(_)
                     H(w) == \E i \in 1..Len(w) : IF IsTime(w[i]) THEN w[i].m ELSE IsKeys(w[i]) /\ w[i].b # NoBody /\ H(w[i].b)
                 IN H(l)

OutMeaning(l) ==
  IF HasNotTime(l) THEN <<FALSE, <<>>, <<>>>>
  ELSE LET r == OutEv(l, <<>>)
           q == Merge(r[1] \o Events(Reverse(r[2]), UP))
       \* with everything pressed at once, it is held as long as the input
       IN <<TRUE, IF ~HasHold(l) /\ AtOnce(q) THEN DropBack(q, UP) ELSE q, <<>>>>

-----------------------------------------------------------------------------
(* input expressions without negated keys *)

RECURSIVE InEv(_, _)
InEv(l, depth) ==
  IF l = <<>> THEN <<>>
  ELSE LET i == Head(l)
           s == IF depth > 0 THEN (IF i.m THEN NTUD ELSE UP) ELSE (IF i.m THEN NOT ELSE DOWN)
           all == IF i.g THEN Events(i.h, DOWNA) ELSE <<>>
           hold == all \o Events(i.h, DOWN) \o InEv(i.b, depth + 1) \o Events(Reverse(i.h), UPA)
           \* a key after a not-timeout has to be released in time
           x == LastIdx(hold, LAMBDA e : e[2] # UPA)
           sync == IF hold[x][1] = K_TIMEOUT /\ IsNotTimeout(hold[x][2])
                   THEN [j \in 1..(Len(hold) - x) |-> Ev(hold[x + j][1], UP)] ELSE <<>>
       IN (IF IsTime(i) THEN <<<<K_TIMEOUT, s, i.d>>>>
           ELSE IF i.b # NoBody THEN hold \o sync
           ELSE all \o Events(i.h, DOWN) \o Events(i.h, UPA)) \o InEv(Tail(l), depth)

HasNot(l) == LET RECURSIVE H(_)
                 H(w) == \E i \in 1..Len(w) : IsNot(w[i]) \/ (IsKeys(w[i]) /\ w[i].b # NoBody /\ H(w[i].b))
             IN H(l)
\* a time starts with a key
InValid(l) == \E i \in 1..Len(l) : IsKeys(l[i]) /\ \A j \in 1..(i - 1) : ~IsTime(l[j])

InMeaning(l) == IF ~InValid(l) THEN <<FALSE, <<>>, <<>>>> ELSE <<TRUE, Merge(InEv(l, 0)), <<>>>>

-----------------------------------------------------------------------------
Translate(l, in) == Outcome(FoldLeft(StepParse, InitParse(in), Tokens(l)))

VARIABLE l
Init == l \in Expressions
Next == UNCHANGED l
Spec == Init /\ [][Next]_l

OutputAgrees == Translate(l, FALSE) = OutMeaning(l)
InputAgrees == ~HasNot(l) => Translate(l, TRUE) = InMeaning(l)
=============================================================================
