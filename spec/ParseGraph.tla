----------------------------- MODULE ParseGraph -----------------------------
(***************************************************************************)
(* Explores all token lists up to a length and checks C17 on them. Each    *)
(* line of the suite is [in, ev |-> alphabet, depth].                      *)
(***************************************************************************)
EXTENDS ParseSeq, Json, IOUtils, TLCExt

Suite == ndJsonDeserialize(IOEnv.SUITE)

VARIABLES n, m, len
vars == <<n, m, len>>

Init == n \in 1..Len(Suite) /\ m = InitParse(Suite[n].in) /\ len = 0

Id(v) == <<TLCFP(v), TLCFP(<<v, 1>>)>>

Next ==
  /\ len < Suite[n].depth
  /\ \E e \in 1..Len(Suite[n].ev) :
       /\ m' = StepParse(m, Suite[n].ev[e])
       /\ len' = IF m'.err THEN Suite[n].depth ELSE len + 1
       /\ n' = n
       /\ PrintT("T" \o ToString(<<n, Id(<<m, len>>), e, ObsParse(m'), Id(<<m', len'>>)>>))

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C17 *)

\* keys which are down after a prefix of an output
RECURSIVE DownAfter(_, _)
DownAfter(q, d) ==
  IF q = <<>> THEN d
  ELSE LET e == Head(q) IN
       DownAfter(Tail(q), IF e[1] = K_TIMEOUT \/ IsAction(e[1]) THEN d
                          ELSE IF e[2] = DOWN THEN d \cup {e[1]}
                          ELSE IF e[2] \in {UP, NOT} THEN d \ {e[1]} ELSE d)

\* outputs release what they press, or everything is released with the input
Balanced(q) ==
  DownAfter(q, {}) # {} => ~m.mod /\ AtOnce(q)

\* outputs release only what they pressed
ReleasesPressed(q) ==
  \A i \in 1..Len(q) : q[i][2] = UP => \E j \in 1..(i - 1) : q[j] = Ev(q[i][1], DOWN)

\* what may or has to be released or pressed in an input is pressed at some place
InputWellFormed(q) ==
  /\ HasDown(q)
  /\ \A i \in 1..Len(q) :
       \* (strings in a hold leave it open whether their modifiers are held)
       /\ q[i][2] = UPA /\ q[i][1] \notin {K_SHIFT, K_CONTROL} => \E j \in 1..(i - 1) : q[j] = Ev(q[i][1], DOWN)
       /\ q[i][2] = UP /\ q[i][1] \notin {K_TIMEOUT, K_SHIFT, K_CONTROL} => \E j \in 1..(i - 1) : q[j] = Ev(q[i][1], DOWN)
       /\ q[i][2] = DOWNA => \E j \in (i + 1)..Len(q) : q[j] = Ev(q[i][1], DOWN)
       \* only a mapping which never holds back, ends with a key which is not released
       /\ q[i][2] = DOWN /\ q[i][1] # K_TIMEOUT /\ ~m.nmm /\ q[i][1] # K_CTX =>
            \E j \in (i + 1)..Len(q) : q[j][1] = q[i][1] /\ q[j][2] \in {UP, UPA}

\* a timeout neither comes first nor exceeds what can be represented
TimeoutsValid(q) ==
  \A i \in 1..Len(q) : q[i][1] = K_TIMEOUT =>
    /\ q[i][3] <= MaxTimeout
    /\ m.in => \E j \in 1..(i - 1) : q[j][2] = DOWN
    /\ i < Len(q) /\ q[i + 1][1] = K_TIMEOUT => q[i + 1][2] # q[i][2]

WellFormed ==
  LET o == Outcome(m) IN
  o[1] => /\ TimeoutsValid(o[2])
          /\ IF m.in THEN InputWellFormed(o[2]) ELSE Balanced(o[2]) /\ ReleasesPressed(o[2])
=============================================================================
