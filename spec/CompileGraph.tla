---------------------------- MODULE CompileGraph ----------------------------
(***************************************************************************)
(* Explores all files up to a number of lines and checks C18 on them. Each *)
(* line of the suite is [ev |-> lines to choose from, depth].              *)
(***************************************************************************)
EXTENDS Compile, Json, IOUtils, TLCExt

Suite == ndJsonDeserialize(IOEnv.SUITE)

VARIABLES n, s, len
vars == <<n, s, len>>

Init == n \in 1..Len(Suite) /\ s = StepLines(InitFile, Suite[n].init) /\ len = 0

Id(v) == <<TLCFP(v), TLCFP(<<v, 1>>)>>

Next ==
  /\ len < Suite[n].depth
  /\ \E e \in 1..Len(Suite[n].ev) :
       /\ s' = StepLine(s, Suite[n].ev[e])
       /\ len' = IF s'.err # <<>> \/ s'.done THEN Suite[n].depth ELSE len + 1
       /\ n' = n
       /\ PrintT("T" \o ToString(<<n, Id(<<s, len>>), e, Meaning(s'), Id(<<s', len'>>)>>))

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C18 *)

IsPhysical(q) == \A i \in 1..Len(q) : q[i][1] < FirstLogical

Valid == ~Failed(s) => LET bs == Blocks(s) IN
  /\ \A i \in 1..Len(bs) :
       LET b == bs[i] IN
       \* no logical keys are left over
       /\ \A j \in 1..Len(b.maps) : IsPhysical(b.maps[j].i) /\ (b.maps[j].c = 0 => IsPhysical(b.outs[b.maps[j].o]))
       /\ \A j \in 1..Len(b.cout) : IsPhysical(b.cout[j].o)
       /\ \A j \in 1..Len(b.alts) : \A a \in FilterAlternatives(s, b.alts[j]) : IsPhysical(a.m)
       \* no mapping needs a logical key's keys at once, nor more than it states
       /\ \A j \in 1..Len(b.maps) : b.maps[j].i # <<>>
  \* each mapping and each output of a command in a block of this system is there
  /\ LET mine == SelectSeq(s.ctx, LAMBDA b : b.sys /\ ~b.ft)
         count(bb, Field(_)) == FoldLeft(LAMBDA a, b : a + Len(Field(b)), 0, bb)
     IN /\ count(bs, LAMBDA b : b.maps) >= count(mine, LAMBDA b : b.maps)
        /\ count(bs, LAMBDA b : b.cout) >= count(mine, LAMBDA b : b.cout)
  \* outputs do not keep forwarded modifiers which the input needs
  /\ \A i \in 1..Len(bs) : \A j \in 1..Len(bs[i].maps) : \A x \in 1..Len(s.fwd) :
       LET m == bs[i].maps[j]
           k == s.fwd[x]
       IN m.c = 0 /\ Contains(m.i, Ev(k, DOWN)) => Exists(bs[i].outs[m.o], LAMBDA e : e[1] = k)
  \* commands which are used have an output unless this is allowed
  /\ s.unm \/ \A i \in 1..Len(s.cmd) : s.cmd[i].mapped
=============================================================================
