------------------------------ MODULE DxlTrace ------------------------------
(***************************************************************************)
(* Validation of recorded sessions: every event must be a step of Dxl.     *)
(*                                                                         *)
(* The file named by TRACE holds one JSON object per line.  The first says *)
(* which kinds of mismatch to judge; every other is a session              *)
(*   {"id": .., "rcap": .., "wcap": .., "ev": [event, ...]}                *)
(* All sessions are checked in one run, as separate initial states.  A     *)
(* mismatch that is judged violates Conforms; another one is forgiven if   *)
(* it leaves no doubt about the state, and otherwise ends the session.     *)
(***************************************************************************)
EXTENDS Dxl, Json, IOUtils, TLC

Lines    == ndJsonDeserialize(IOEnv.TRACE)
JudgeSet == ToSet(Lines[1].judge)
NSessions == Len(Lines) - 1

VARIABLES sid, i, st, verdict
vars == <<sid, i, st, verdict>>

Session == Lines[sid + 1]
Ev == Session.ev[i]

Init == /\ sid \in 1..NSessions
        /\ i = 1
        /\ st = Start(Session.rcap, Session.wcap)
        /\ verdict = <<"ok">>

\* tag: kind of mismatch; next: the state to go on with, if there is one.
Mismatch(tag, forgive, next) ==
    LET full == tag \o ":" \o st.c.op IN
    IF tag \in JudgeSet \/ full \in JudgeSet
    THEN /\ PrintT(<<"MISMATCH", ToString(Session.id), i, full, st.stage, IF st.stage = "done" THEN st.outs ELSE {}, Ev>>)
         /\ verdict' = <<"violation", full>>
         /\ st' = st
    ELSE IF forgive THEN /\ st' = next /\ verdict' = verdict
    ELSE /\ PrintT(<<"ABANDONED", ToString(Session.id), i, full>>)
         /\ verdict' = <<"abandoned", full>>
         /\ st' = st

Step(next) == st' = next /\ verdict' = verdict

\* A request that was refused: nothing may be sent, but it is nobody's business
\* if the input has been discarded.
Refused == st.stage = "done" /\ Sends(st.c) /\ st.msg = <<>> /\ ~st.cleared

OnCall ==
    LET s == [st EXCEPT !.clk = Ev.t] IN
    IF st.maybe /\ st.rx # <<>> /\ Ev.c.op \in {"raw_read", "raw_read_t", "dev_read"}
    THEN /\ PrintT(<<"ABANDONED", ToString(Session.id), i, "unknown input">>)
         /\ verdict' = <<"abandoned", "unknown input">>
         /\ st' = st
    ELSE Step(Begin(s, Ev.c))

OnDisc(s) ==
    IF CanDiscard(st) THEN Step(IF Ev.ok THEN DiscardOk(s) ELSE DiscardFail(s, Ev.code))
    ELSE IF Refused
    THEN Step(IF Ev.ok THEN [s EXCEPT !.maybe = TRUE]
              ELSE [s EXCEPT !.maybe = TRUE, !.outs = @ \cup {EDiscard(Ev.code)}])
    ELSE Mismatch("disc.extra", FALSE, st)

\* Does b look like a packet, whatever it says?
WellFormed(b) == /\ Len(b) >= 10
                 /\ SubSeq(b, 1, 4) = HEADER
                 /\ U16(b[6], b[7]) = Len(b) - 7
                 /\ WellStuffed(SubSeq(b, 8, Len(b) - 2))
                 /\ Seal(SubSeq(b, 1, Len(b) - 2)) = b

OnTx(s) ==
    IF st.stage # "send" THEN Mismatch("tx.extra", FALSE, st)
    ELSE IF ~st.cleared THEN Mismatch("disc.missing", TRUE, IF Ev.ok THEN TransmitOk(s, st.msg) ELSE TransmitFail(s, Ev.code))
    ELSE IF CanTransmit(st, Ev.b) THEN Step(IF Ev.ok THEN TransmitOk(s, Ev.b) ELSE TransmitFail(s, Ev.code))
    ELSE Mismatch(IF WellFormed(Ev.b) THEN "tx.bytes" ELSE "tx.form", TRUE, IF Ev.ok THEN TransmitOk(s, st.msg) ELSE TransmitFail(s, Ev.code))

OnRd(s) ==
    IF st.stage = "send" THEN Mismatch("tx.missing", FALSE, st)
    ELSE IF st.stage # "recv" THEN Mismatch("rd.extra", FALSE, st)
    ELSE IF Ev.cap = 0 THEN Mismatch("rd.empty", FALSE, st)
    ELSE LET n == IF Ev.got THEN ReadGot(s, Ev.b) ELSE ReadFail(s, Ev.code) IN
         IF Ev.dl # st.dl THEN Mismatch("rd.deadline", TRUE, n) ELSE Step(n)

OnGetB(s) ==
    IF st.stage = "getb" THEN Step(IF Ev.ok THEN GetBaudOk(s, Ev.baud) ELSE GetBaudFail(s, Ev.code))
    ELSE Mismatch("query", TRUE, s)

OnSetB(s) ==
    IF st.stage # "setb" THEN Mismatch("setb.extra", FALSE, st)
    ELSE IF Ev.baud # st.c.baud THEN Mismatch("setb.value", FALSE, st)
    ELSE Step(IF Ev.ok THEN SetBaudOk(s) ELSE SetBaudFail(s, Ev.code))

Failure(r) == r.k \in {"err", "panic"}

OnRet(s) ==
    LET r == Ev.r IN
    IF CanReturn(st, r) THEN Step(Return(s))
    ELSE IF r.k \in {"panic", "hang", "crash"} THEN Mismatch("ret." \o r.k, FALSE, st)
    ELSE IF st.stage = "send" THEN Mismatch(IF r.k = "err" THEN "tx.refused" ELSE "tx.missing", FALSE, st)
    ELSE IF st.stage = "recv" THEN Mismatch("rd.missing", FALSE, st)
    ELSE IF st.stage \in {"getb", "setb"} THEN Mismatch("setb.missing", FALSE, st)
    ELSE
    LET good == \E x \in st.outs : ~Failure(x) IN
    Mismatch(IF ~Failure(r) THEN IF good THEN "ret.data" ELSE "ret.accepted"
             ELSE IF good THEN "ret.refused" ELSE "ret.error",
             TRUE, Return(s))

Next ==
    /\ verdict[1] = "ok"
    /\ i <= Len(Session.ev)
    /\ i' = i + 1
    /\ sid' = sid
    /\ LET s == [st EXCEPT !.clk = Ev.t] IN
       CASE Ev.e = "call" -> OnCall
         [] Ev.e = "disc" -> OnDisc(s)
         [] Ev.e = "tx"   -> OnTx(s)
         [] Ev.e = "rd"   -> OnRd(s)
         [] Ev.e = "getb" -> OnGetB(s)
         [] Ev.e = "setb" -> OnSetB(s)
         [] Ev.e = "ret"  -> OnRet(s)

Spec == Init /\ [][Next]_vars

Conforms == verdict[1] # "violation"
=============================================================================
