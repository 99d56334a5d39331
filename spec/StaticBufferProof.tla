-------------------------- MODULE StaticBufferProof --------------------------
(***************************************************************************)
(* StaticBuffer keeps its promises for any number of threads and of        *)
(* occurrences: proofs, checked by tlapm.                                  *)
(***************************************************************************)
EXTENDS StaticBuffer, TLAPS

States == {"idle", "called", "won", "lost"}
Types == /\ taken \in [Sites -> BOOLEAN]
         /\ pc \in [Sites -> [Threads -> States]]
         /\ owner \in [Sites -> Seq(Threads)]
\* Nobody has it, or somebody won and is about to get it, or somebody has it.
Stage(s) ==
    \/ /\ ~taken[s] /\ owner[s] = <<>>
       /\ \A t \in Threads : pc[s][t] \in {"idle", "called"}
    \/ /\ taken[s] /\ owner[s] = <<>>
       /\ \E w \in Threads : /\ pc[s][w] = "won"
                             /\ \A t \in Threads \ {w} : pc[s][t] # "won"
    \/ /\ taken[s] /\ Len(owner[s]) = 1
       /\ \A t \in Threads : pc[s][t] # "won"
Inv == Types /\ \A s \in Sites : Stage(s)

LEMMA Start == SInit => Inv
  BY DEF SInit, Inv, Types, Stage, States

LEMMA Step == Inv /\ [SNext]_svars => Inv'
<1> SUFFICES ASSUME Inv, [SNext]_svars PROVE Inv' OBVIOUS
<1>1. CASE UNCHANGED svars
  BY <1>1 DEF svars, Inv, Types, Stage
<1>2. CASE SNext
  <2> PICK t \in Threads, s \in Sites : Call(t, s) \/ Take(t, s) \/ Got(t, s) \/ Refuse(t, s)
    BY <1>2 DEF SNext
  <2>1. CASE Call(t, s)
    <3>1. Types' BY <2>1 DEF Call, Inv, Types, States
    <3>2. ASSUME NEW x \in Sites PROVE Stage(x)'
      BY <2>1, <3>1 DEF Call, Inv, Types, Stage, States
    <3> QED BY <3>1, <3>2 DEF Inv
  <2>2. CASE Take(t, s)
    <3>1. Types' BY <2>2 DEF Take, Inv, Types, States
    <3>2. ASSUME NEW x \in Sites PROVE Stage(x)'
      BY <2>2, <3>1 DEF Take, Inv, Types, Stage, States
    <3> QED BY <3>1, <3>2 DEF Inv
  <2>3. CASE Got(t, s)
    <3>1. Types' BY <2>3 DEF Got, Inv, Types, States
    <3>2. ASSUME NEW x \in Sites PROVE Stage(x)'
      BY <2>3, <3>1 DEF Got, Inv, Types, Stage, States
    <3> QED BY <3>1, <3>2 DEF Inv
  <2>4. CASE Refuse(t, s)
    <3>1. Types' BY <2>4 DEF Refuse, Inv, Types, States
    <3>2. ASSUME NEW x \in Sites PROVE Stage(x)'
      BY <2>4, <3>1 DEF Refuse, Inv, Types, Stage, States
    <3> QED BY <3>1, <3>2 DEF Inv
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1> QED BY <1>1, <1>2

LEMMA Enough == Inv => TypeOK /\ AtMostOnce /\ NeverInVain /\ Handed
<1> SUFFICES ASSUME Inv PROVE TypeOK /\ AtMostOnce /\ NeverInVain /\ Handed OBVIOUS
<1>1. TypeOK BY DEF Inv, Types, TypeOK
<1>2. ASSUME NEW s \in Sites PROVE Len(owner[s]) <= 1
  BY DEF Inv, Types, Stage
<1>3. NeverInVain BY DEF Inv, Types, Stage, NeverInVain
<1>4. Handed BY DEF Inv, Types, Stage, Handed
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF AtMostOnce

THEOREM Safe == SSpec => [](TypeOK /\ AtMostOnce /\ NeverInVain /\ Handed)
  BY Start, Step, Enough, PTL DEF SSpec
=============================================================================
