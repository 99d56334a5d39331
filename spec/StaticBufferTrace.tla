-------------------------- MODULE StaticBufferTrace --------------------------
(***************************************************************************)
(* Validation of recorded evaluations of static_buffer!() against the      *)
(* StaticBuffer specification.  Take is not recorded, so its place is      *)
(* inferred: an evaluation may have lost only if another one may have won. *)
(* cand holds, for the site being evaluated, the threads that may have won *)
(* (each site is evaluated only while no other site is, so one is enough). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pend, cand, lost, got, regions, verdict
vars == <<i, pend, cand, lost, got, regions, verdict>>
Ev == Log[i]

\* pend: evaluations in progress; cand: who may have won (given the losers);
\* lost: did anybody lose before the winner was known; got: sites handed out;
\* regions: the memory handed out, as <<process, begin, end>>.
Init == /\ i = 2 /\ pend = {} /\ cand = {} /\ lost = FALSE
        /\ got = {} /\ regions = {} /\ verdict = "ok"

Fail(why) == /\ PrintT(<<"MISMATCH", i - 1, why, Ev>>)
             /\ verdict' = why
             /\ UNCHANGED <<pend, cand, lost, got, regions>>

Quiet(p) == p = {}

OnCall ==
    /\ pend' = pend \cup {Ev.th}
    \* Before anybody lost, whoever is called may win; afterwards nobody new.
    /\ cand' = IF lost \/ Ev.site \in got THEN cand ELSE cand \cup {Ev.th}
    /\ UNCHANGED <<lost, got, regions, verdict>>

Overlaps(a, b) == /\ a[1] = b[1]
                  /\ a[3] > a[2] /\ b[3] > b[2] /\ a[2] < b[3] /\ b[2] < a[3]

OnGot(n) ==
    LET r == <<Ev.proc, Ev.lo, Ev.lo + Ev.len>> IN
    IF Ev.site \in got THEN Fail("handed out twice")
    ELSE IF Ev.th \notin cand THEN Fail("handed out after a refusal")
    ELSE IF Ev.len # n THEN Fail("wrong size")
    ELSE IF ~Ev.zero THEN Fail("not zero")
    ELSE IF \E x \in regions : Overlaps(x, r) THEN Fail("shared memory")
    ELSE /\ pend' = pend \ {Ev.th}
         /\ cand' = {} /\ lost' = FALSE
         /\ got' = got \cup {Ev.site}
         /\ regions' = regions \cup {r}
         /\ UNCHANGED verdict

OnPanic ==
    IF Ev.site \in got
    THEN /\ pend' = pend \ {Ev.th} /\ UNCHANGED <<cand, lost, got, regions, verdict>>
    ELSE LET c == cand \ {Ev.th} IN
         IF c = {} THEN Fail("refused although nobody has it")
         ELSE /\ pend' = pend \ {Ev.th} /\ cand' = c /\ lost' = TRUE
              /\ UNCHANGED <<got, regions, verdict>>

\* The size of the site: that of its last call.
SizeOf(s) == LET k == CHOOSE k \in 1..i : /\ Log[i - k].e = "call" /\ Log[i - k].site = s
                                          /\ \A j \in 1..(k - 1) : ~(Log[i - j].e = "call" /\ Log[i - j].site = s)
             IN  Log[i - k].n

Next == /\ verdict = "ok" /\ i <= Len(Log)
        /\ i' = i + 1
        /\ CASE Ev.e = "call"  -> OnCall
             [] Ev.e = "got"   -> OnGot(SizeOf(Ev.site))
             [] Ev.e = "panic" -> OnPanic
             [] Ev.e = "stuck" -> Fail("does not end")

Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
=============================================================================
