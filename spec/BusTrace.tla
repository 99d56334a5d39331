------------------------------ MODULE BusTrace ------------------------------
(***************************************************************************)
(* Validation of recorded sessions of a client and devices on one bus.     *)
(*                                                                         *)
(* Participant 0 is the client, 1..n are the devices.  The medium carries  *)
(* what one sends to all others, possibly altered (event air), in pieces.  *)
(* End to end:                                                             *)
(*   - what a device understands are the requests of the client, in their  *)
(*     order, none twice and none invented; without alterations all of     *)
(*     them, and otherwise what the receiver makes of the bytes            *)
(*   - a request succeeds only with what the addressed device answered to  *)
(*     it, every answer counting once                                      *)
(*   - a request that was answered acceptably succeeds, unless something   *)
(*     was altered meanwhile                                               *)
(***************************************************************************)
EXTENDS Dxl, Json, IOUtils, TLC

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, i, b, verdict
vars == <<sid, i, b, verdict>>

Session == Lines[sid]
Ev == Session.ev[i]
P == Ev.p
N == Session.devices

\* wire     bytes on their way to each participant
\* dv       the devices as state machines; blind: those that left the machine
\* cur, sent   the operation of the client, and whether it has been sent
\* multi, pos  the multi-motor request, and the number of results so far
\* issued   the requests in order; exe: how far each device has come
\* asked, answers, used   the answer being given, the answers since the
\*          last request was issued, and those a result has been made of
\* altered  the medium altered something; touched: since that request
BInit == [wire |-> [p \in 0..N |-> <<>>], last |-> <<>>,
          dv |-> [p \in 1..N |-> Start(Session.rcap, Session.wcap)], blind |-> {},
          cur |-> NoCall, sent |-> FALSE, multi |-> NoCall, pos |-> 0,
          issued |-> <<>>, exe |-> [p \in 1..N |-> 0],
          asked |-> [p \in 1..N |-> NoCall], answers |-> <<>>, used |-> {},
          altered |-> FALSE, touched |-> FALSE]

Init == sid \in 1..Len(Lines) /\ i = 1 /\ b = BInit /\ verdict = "ok"

Step(next) == b' = next /\ verdict' = verdict
Bad(why) == /\ PrintT(<<"MISMATCH", ToString(Session.id), i, why, Ev>>)
            /\ verdict' = why /\ b' = b

-----------------------------------------------------------------------------
\* The devices as machines.
Blind == P \in b.blind
With(s, st) == [s EXCEPT !.dv[P] = st]
Lose(s) == [s EXCEPT !.blind = @ \cup {P}]
Dv == b.dv[P]

Understands(c, via) ==
    LET m == MessageOf(c) IN
    IF via = "raw" THEN {RawInstr(m)} ELSE DecodeInstr(m.id, m.ins, m.par)

DeviceCall ==
    LET s == IF Blind THEN b ELSE With(b, Begin(Dv, Ev.c)) IN
    Step(IF Ev.c.op = "dev_read" \/ Ev.c.op = "dev_status" THEN [s EXCEPT !.asked[P] = Ev.c] ELSE s)

DeviceRet ==
    LET r == Ev.r
        c == b.asked[P]
        next == [(IF Blind THEN b ELSE With(b, Return(Dv))) EXCEPT !.asked[P] = NoCall]
    IN
    IF r.k \in {"panic", "hang", "crash"} THEN Bad("device " \o r.k)
    ELSE IF c.op = "dev_status"
    THEN IF r.k # "unit" THEN Bad("device cannot answer")
         ELSE Step([next EXCEPT !.answers = Append(@, [n |-> b.exe[P], id |-> c.id, err |-> c.err, data |-> c.data])])
    ELSE IF c.op # "dev_read" THEN Step(next)
    ELSE
    LET ks == {k \in (b.exe[P] + 1)..Len(b.issued) : r \in Understands(b.issued[k], c.via)} IN
    IF r.k \in {"instr", "raw"} /\ ks = {} THEN Bad("executes what was not requested")
    ELSE IF ~Blind /\ Dv.stage = "recv" THEN Bad("does not wait")
    ELSE IF ~Blind /\ Dv.stage = "done" /\ ~CanReturn(Dv, r) THEN Bad("does not execute what it received")
    ELSE IF ks = {} THEN Step(next)
    ELSE LET k == CHOOSE k \in ks : \A j \in ks : k <= j IN
         IF ~b.altered /\ k # b.exe[P] + 1 THEN Bad("misses a request")
         ELSE Step([next EXCEPT !.exe[P] = k])

-----------------------------------------------------------------------------
\* The client.
Wants == Outstanding(b.multi)
Acceptable(a, id, n) == Discrepancies([ins |-> STATUS, id |-> a.id, par |-> <<a.err>> \o a.data], id, n) = {}

ToThis(a) == a.n > 0 /\ MessageOf(b.issued[a.n]) = MessageOf(b.issued[Len(b.issued)])
Reported(a, r) == /\ ToThis(a)
                  /\ r.id = a.id /\ r.data = a.data /\ r.alert = (a.err >= 128) /\ a.err % 128 = 0
                  /\ (r.k = "status" => r.err = a.err)

\* The first j answers are what the multi-motor request asked for.
AllGood(j) == /\ Len(b.answers) >= j
              /\ \A x \in 1..j : /\ ToThis(b.answers[x])
                                 /\ IF b.multi.op = "scan" THEN Acceptable(b.answers[x], -1, 3)
                                    ELSE x <= Len(Wants) /\ Acceptable(b.answers[x], Wants[x].id, Wants[x].count)

ClientCall ==
    LET c == Ev.c
        s == [b EXCEPT !.cur = c, !.sent = FALSE]
    IN Step(IF MultiRead(c) \/ c.op = "scan" THEN [s EXCEPT !.multi = c, !.pos = 0] ELSE s)

ClientRet ==
    LET r == Ev.r
        c == b.cur
        success == r.k \in {"ok", "status"}
    IN
    IF r.k \in {"panic", "hang", "crash"} THEN Bad("client " \o r.k)
    ELSE IF c.op = "next"
    THEN LET at == b.pos + Skip(c) + 1   \* Items may be skipped.
             xs == {x \in 1..Len(b.answers) : /\ x \notin b.used /\ Reported(b.answers[x], r)
                                              /\ b.multi.op # "scan" => at <= Len(Wants) /\ r.id = Wants[at].id /\ Len(r.data) = Wants[at].count}
             next == [b EXCEPT !.pos = at]
         IN
         IF success
         THEN IF b.multi.op # "scan" /\ at > Len(Wants) THEN Bad("more results than motors")
              ELSE IF xs = {} THEN Bad("returns what was not answered")
              ELSE Step([next EXCEPT !.used = @ \cup {CHOOSE x \in xs : \A y \in xs : x <= y}])
         ELSE IF ~b.touched /\ AllGood(at) THEN Bad("fails although answered")
         ELSE Step(next)
    ELSE IF AwaitsReply(c)
    THEN IF success
         THEN IF ~b.sent THEN Bad("succeeds without asking")
              ELSE IF \E x \in 1..Len(b.answers) : Reported(b.answers[x], r) /\ r.id = c.id
                      /\ (c.op = "raw_xfer" \/ Len(r.data) = IF c.op \in AckOps THEN 0 ELSE ReplyParams(c)) THEN Step(b)
              ELSE Bad("returns what was not answered")
         ELSE IF /\ b.sent /\ ~b.touched /\ b.answers # <<>> /\ ToThis(b.answers[1])
                 /\ Acceptable(b.answers[1], c.id, IF c.op = "raw_xfer" THEN -1 ELSE IF c.op \in AckOps THEN 0 ELSE ReplyParams(c))
              THEN Bad("fails although answered")
         ELSE Step(b)
    ELSE IF Sends(c) /\ r.k # "err" /\ ~b.sent THEN Bad("succeeds without sending")
    ELSE Step(b)

-----------------------------------------------------------------------------
\* The medium.  That the harness keeps to it is asserted, not judged.
OnTx ==
    LET s == [b EXCEPT !.last = Ev.b] IN
    IF P = 0
    THEN Step(IF b.sent THEN s
              ELSE [s EXCEPT !.sent = TRUE, !.issued = Append(@, b.cur), !.answers = <<>>, !.used = {}, !.touched = FALSE])
    ELSE IF Blind THEN Step(s)
    ELSE IF Dv.stage = "send" THEN Step(With(s, TransmitOk(Dv, Dv.msg)))
    ELSE Step(Lose(s))

OnAir ==
    LET changed == \E p \in 0..N : p # P /\ Ev.del[p + 1] # b.last IN
    Step([b EXCEPT !.wire = [p \in 0..N |-> b.wire[p] \o Ev.del[p + 1]],
                   !.altered = @ \/ changed, !.touched = @ \/ changed])

OnRd ==
    LET s == IF Ev.got
             THEN IF Assert(IsPrefix(Ev.b, b.wire[P]), <<"harness: not on the wire", Session.id, i>>)
                  THEN [b EXCEPT !.wire[P] = Drop(@, Len(Ev.b))] ELSE b
             ELSE b
    IN
    IF P = 0 \/ Blind THEN Step(s)
    ELSE IF Dv.stage = "recv" THEN Step(With(s, IF Ev.got THEN ReadGot(Dv, Ev.b) ELSE ReadFail(Dv, Ev.code)))
    ELSE Step(Lose(s))

OnDisc ==
    LET s == [b EXCEPT !.wire[P] = <<>>] IN
    IF P = 0 \/ Blind THEN Step(s)
    ELSE IF CanDiscard(Dv) THEN Step(With(s, DiscardOk(Dv)))
    ELSE Step(Lose(s))

OnGetB ==
    IF P = 0 \/ Blind THEN Step(b)
    ELSE IF Dv.stage = "getb" THEN Step(With(b, GetBaudOk(Dv, Ev.baud)))
    ELSE Step(b)

OnEnd ==
    IF ~b.altered /\ \E p \in 1..N : b.exe[p] # Len(b.issued) THEN Bad("a request did not reach a device")
    ELSE Step(b)

Next ==
    /\ verdict = "ok"
    /\ i <= Len(Session.ev)
    /\ i' = i + 1
    /\ sid' = sid
    /\ CASE Ev.e = "call" -> IF P = 0 THEN ClientCall ELSE DeviceCall
         [] Ev.e = "ret"  -> IF P = 0 THEN ClientRet ELSE DeviceRet
         [] Ev.e = "tx"   -> OnTx
         [] Ev.e = "air"  -> OnAir
         [] Ev.e = "rd"   -> OnRd
         [] Ev.e = "disc" -> OnDisc
         [] Ev.e = "getb" -> OnGetB
         [] Ev.e = "end"  -> OnEnd

Spec == Init /\ [][Next]_vars
Conforms == verdict = "ok"
=============================================================================
