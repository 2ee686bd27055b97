-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Keys, key states and key events shared by all modules.                  *)
(*                                                                         *)
(* A key is its numeric code, an event is a tuple <<key, state, value>>.   *)
(* Lists are sequences throughout, since order is always observable.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

UP     == 0
DOWN   == 1
NOT    == 2   \* must not be pressed / ensure released, also "not timeout"
UPA    == 3   \* may be released from now on (input expressions)
DOWNA  == 4   \* may be pressed from now on (input expressions)
NMM    == 5   \* "?": mapping must never hold input back
OOR    == 6   \* "^": rest of the output follows on release
DOWNM  == 7   \* pressed, already used by a match (pending input)
UPM    == 8   \* timeout, already used by a match (pending input)
NTUD   == 9   \* not-timeout cancelled by key press and release

K_NONE    == 0
K_ANY     == 61440
K_TIMEOUT == 61441
K_CTX     == 61442
K_UNICODE == 61443
K_SHIFTL  == 42
K_ESCAPE  == 1
K_K       == 37

IsVirtual(k) == k >= 61696 /\ k <= 61951
IsAction(k)  == k >= 61952 /\ k <= 62207
IsButton(k)  == k >= 272 /\ k <= 276
IsWheel(k)   == k >= 336 /\ k <= 339
IsKeyboard(k) == k > 0 /\ k <= 61439 /\ ~IsButton(k) /\ ~IsWheel(k)
IsDevice(k)  == k > 0 /\ k <= 61439
\* Shift, Control, Alt, Meta (left and right)
IsCommonModifier(k) == k \in {42, 54, 29, 97, 56, 100, 125, 126}

NoEvent == <<K_NONE, UP, 0>>
Key(ev)   == ev[1]
State(ev) == ev[2]
Value(ev) == ev[3]
Ev(k, s)  == <<k, s, 0>>

IsNotTimeout(s) == s = NOT \/ s = NTUD
IsNonOptional(ev) == ev[2] = UP \/ ev[2] = DOWN

-----------------------------------------------------------------------------
(* Generic list helpers *)

\* index of the first/last element satisfying Test, 0 when there is none
First(q, Test(_)) == SelectInSeq(q, Test)
LastIdx(q, Test(_)) == SelectLastInSeq(q, Test)
Exists(q, Test(_)) == SelectInSeq(q, Test) # 0
Back(q) == q[Len(q)]

IsSubAt(t, p, i) == i + Len(p) - 1 <= Len(t) /\ \A j \in 1..Len(p) : t[i + j - 1] = p[j]
ContainsSub(t, p) == \E i \in 1..(Len(t) - Len(p) + 1) : IsSubAt(t, p, i)
=============================================================================
