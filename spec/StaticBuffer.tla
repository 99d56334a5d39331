---------------------------- MODULE StaticBuffer ----------------------------
(***************************************************************************)
(* Buffers that are handed out once.  A site (occurrence of the macro) is  *)
(* evaluated by threads; an evaluation takes effect at one moment between  *)
(* its call and its return:                                                *)
(*                                                                         *)
(*   Call(t, s)   thread t starts evaluating site s                        *)
(*   Take(t, s)   the evaluation takes effect: it wins or loses            *)
(*   Got(t, s)    it returns the buffer            (only after winning)    *)
(*   Refuse(t, s) it panics                        (only after losing)     *)
(*                                                                         *)
(* pc[s][t] is where the evaluation of s by t is.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Sites
VARIABLES taken, pc, owner
svars == <<taken, pc, owner>>

SInit == /\ taken = [s \in Sites |-> FALSE]
         /\ pc = [s \in Sites |-> [t \in Threads |-> "idle"]]
         /\ owner = [s \in Sites |-> <<>>]          \* who got it: at most one

Call(t, s) == /\ pc[s][t] = "idle"
              /\ pc' = [pc EXCEPT ![s][t] = "called"]
              /\ UNCHANGED <<taken, owner>>
Take(t, s) == /\ pc[s][t] = "called"
              /\ taken' = [taken EXCEPT ![s] = TRUE]
              /\ pc' = [pc EXCEPT ![s][t] = IF taken[s] THEN "lost" ELSE "won"]
              /\ UNCHANGED owner
Got(t, s) == /\ pc[s][t] = "won"
             /\ pc' = [pc EXCEPT ![s][t] = "idle"]
             /\ owner' = [owner EXCEPT ![s] = Append(@, t)]
             /\ UNCHANGED taken
Refuse(t, s) == /\ pc[s][t] = "lost"
                /\ pc' = [pc EXCEPT ![s][t] = "idle"]
                /\ UNCHANGED <<taken, owner>>

SNext == \E t \in Threads, s \in Sites : Call(t, s) \/ Take(t, s) \/ Got(t, s) \/ Refuse(t, s)
SSpec == /\ SInit /\ [][SNext]_svars
         /\ \A t \in Threads, s \in Sites : WF_svars(Take(t, s) \/ Got(t, s) \/ Refuse(t, s))

AtMostOnce == \A s \in Sites : Len(owner[s]) <= 1
\* Nobody is refused unless somebody has it or is about to.
NeverInVain == \A s \in Sites : (\E t \in Threads : pc[s][t] = "lost") =>
                   Len(owner[s]) = 1 \/ \E t \in Threads : pc[s][t] = "won"
\* When all is quiet, a site that was evaluated has been handed out.
Handed == \A s \in Sites : taken[s] /\ (\A t \in Threads : pc[s][t] = "idle") => Len(owner[s]) = 1
TypeOK == taken \in [Sites -> BOOLEAN]
Live == \A s \in Sites : taken[s] ~> Len(owner[s]) = 1
=============================================================================
