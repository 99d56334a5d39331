-------------------------------- MODULE Same --------------------------------
(***************************************************************************)
(* Independence of the configuration, as a product machine.  The same      *)
(* scenario ran in several configurations (feature set, kind of buffer);   *)
(* the first one is the reference.  All of them advance together: every    *)
(* step of one (call, port access with bytes and deadline, result) must be *)
(* the step of all.  This is a property of sets of behaviours, so it needs *)
(* no opinion on what the steps should be.                                 *)
(*                                                                         *)
(* TRACE holds one scenario per line:                                      *)
(*   {"id": .., "runs": [{"v": name, "ev": [event, ...]}, ...]}            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, i, verdict
vars == <<sid, i, verdict>>

Runs == Lines[sid].runs
Ref == Runs[1]

Init == sid \in 1..Len(Lines) /\ i = 1 /\ verdict = "ok"

\* What configuration r does as its i-th step; <<>>: it has ended.
StepOf(r) == IF i <= Len(r.ev) THEN <<r.ev[i]>> ELSE <<>>
Differ == {k \in 1..Len(Runs) : StepOf(Runs[k]) # StepOf(Ref)}

Next ==
    /\ verdict = "ok"
    /\ \E k \in 1..Len(Runs) : StepOf(Runs[k]) # <<>>
    /\ i' = i + 1
    /\ sid' = sid
    /\ IF Differ = {} THEN verdict' = verdict
       ELSE LET k == CHOOSE k \in Differ : \A j \in Differ : k <= j IN
            /\ PrintT(<<"MISMATCH", ToString(Lines[sid].id), i, Runs[k].v, StepOf(Runs[k]), Ref.v, StepOf(Ref)>>)
            /\ verdict' = "differs"

Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
=============================================================================
