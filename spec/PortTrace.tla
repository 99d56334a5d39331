------------------------------ MODULE PortTrace ------------------------------
(***************************************************************************)
(* Validation of recorded use of a real port (one JSON object with a list  *)
(* of events per line).  Mismatches are printed, and end their session.    *)
(***************************************************************************)
EXTENDS Port, Json, IOUtils, TLC

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, i, q, baud, verdict
vars == <<sid, i, q, baud, verdict>>
Session == Lines[sid]
Ev == Session.ev[i]

Init == /\ sid \in 1..Len(Lines) /\ i = 1 /\ q = <<>> /\ baud = <<0, 0>> /\ verdict = "ok"

Fail(why) == /\ PrintT(<<"MISMATCH", Session.id, i, why>>)
             /\ verdict' = why
             /\ UNCHANGED <<q, baud>>
Require(ok, why, q1, b1) == IF ok THEN q' = q1 /\ baud' = b1 /\ verdict' = verdict ELSE Fail(why)

OnRead ==
    LET all == q \o Sent(Ev.sent)
        after == SubSeq(all, Len(Ev.b) + 1, Len(all)) IN
    CASE Ev.k = "got" ->
            IF Ev.d < Ev.r0 - EARLY THEN Fail("read after its deadline")
            ELSE IF ~IsPrefix(Ev.b, q \o MayHave(Ev.sent, Ev.r1)) \/ Ev.b = <<>> THEN Fail("other bytes than arrived")
            ELSE Require(ReadMayGet(q, Ev.sent, Ev.n, Ev.r0, Ev.r1, Ev.d, Ev.b), "read at the wrong time", after, baud)
      [] Ev.k = "timeout" ->
            IF ~Ev.istimeout THEN Fail("timeout not recognised")
            ELSE Require(ReadMayTimeOut(q, Ev.sent, Ev.r0, Ev.r1, Ev.d), "timeout at the wrong time or with bytes available", q \o Sent(Ev.sent), baud)
      [] OTHER -> Fail("read " \o Ev.k)

\* Messages fit the buffers: those given, or 128 bytes each.
Room == IF Session.how \in {"client_buf", "client_given", "device_buf", "device_given"} THEN 64 ELSE 128
OnSend == Require(IF Ev.n <= Room THEN Ev.k = "ok" /\ Ev.got = Ev.n ELSE Ev.k = "full" /\ Ev.got = 0, "wrong room for messages to send", q, baud)
OnReceive == Require(IF Ev.n <= Room THEN Ev.k = "ok" /\ Ev.got = Ev.sent ELSE Ev.k = "full", "wrong room for messages to receive", q, baud)

\* Whether a port without anybody at the other end fails or stays silent, the wait
\* ends at the deadline at the latest.
OnWait == Require(Ev.k = "error" /\ Ev.took <= Ev.t + LATE, "a wait goes on after its deadline", q, baud)

Next ==
    /\ verdict = "ok" /\ i <= Len(Session.ev)
    /\ i' = i + 1 /\ sid' = sid
    /\ CASE Ev.e = "open"     -> Require(Ev.ok /\ Ev.known = Ev.baud /\ Ev.in = Ev.baud /\ Ev.out = Ev.baud, "not opened at the given baud rate", q, Ev.baud)
         [] Ev.e = "arrive"   -> Require(TRUE, "", q \o Ev.b, baud)
         [] Ev.e = "read"     -> OnRead
         [] Ev.e = "discard"  -> Require(Ev.ok, "discarding fails", <<>>, baud)
         [] Ev.e = "write"    -> Require(Ev.ok /\ Ev.got = Ev.b, "other bytes sent than written", q, baud)
         [] Ev.e = "set_baud" -> Require(Ev.ok /\ Ev.in = Ev.baud /\ Ev.out = Ev.baud, "baud rate did not reach the port", q, Ev.baud)
         [] Ev.e = "baud"     -> Require(Ev.ok /\ Ev.baud = baud, "other baud rate reported", q, baud)
         [] Ev.e = "deadline" -> Require(Ev.early = 0 /\ Ev.late = 0, "wrong deadline", q, baud)
         [] Ev.e = "classify" -> Require(Ev.istimeout = (Ev.kind = "TimedOut"), "errors misclassified", q, baud)
         [] Ev.e = "send"     -> OnSend
         [] Ev.e = "receive"  -> OnReceive
         [] Ev.e = "lost"     -> Require(Ev.k = "error", "a failing port accepts a message", q, baud)
         [] Ev.e = "wait"     -> OnWait
         [] Ev.e = "panic"    -> Fail("panic")

Spec == Init /\ [][Next]_vars
=============================================================================
