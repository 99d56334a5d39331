------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* What is logged.  The sessions of DxlTrace, recorded with the logging    *)
(* feature and a logger that takes everything, also hold log records:      *)
(*   {"e":"log","lv":"trace","b":[bytes listed in the text of the record]} *)
(*                                                                         *)
(* The machine of Dxl tells which packets and which noise an operation     *)
(* consumes.  When an operation returns,                                   *)
(*  - each message it has sent and each packet it has received must have   *)
(*    been logged at trace level, from the header to the last parameter at *)
(*    least, and                                                           *)
(*  - so must all noise that it has skipped, in order, and nothing else as *)
(*    noise.                                                               *)
(***************************************************************************)
EXTENDS DxlTrace

\* said:  the messages that have been logged during this operation.
\* noise: the other bytes that have been logged, in order; those that were
\*        logged before they had to be are left from earlier operations.
\* sent:  what it has written; whole: without a failure.
\* got:   what it has consumed: [pkt: the packets, as they came; noise].
VARIABLE note
Nothing == [pkt |-> <<>>, noise |-> <<>>]
Quiet == [said |-> {}, noise |-> <<>>, sent |-> <<>>, whole |-> TRUE, got |-> Nothing]

Both(a, b) == [pkt |-> a.pkt \o b.pkt, noise |-> a.noise \o b.noise]

\* What is gone from the input s, of which rest is left.
RECURSIVE Gone(_, _)
Gone(s, rest) ==
    IF Len(s) <= Len(rest) \/ st.rcap < 10 THEN Nothing
    ELSE
    LET o == Scan(s, st.rcap)
        g == GarbageLen(s)
        here == [pkt |-> IF o.k = "pkt" THEN <<SubSeq(s, g + 1, Len(s) - Len(o.rest))>> ELSE <<>>, noise |-> SubSeq(s, 1, g)]
    IN
    IF o.k = "need" THEN here ELSE Both(here, Gone(o.rest, rest))

\* Replies that a device skips, and what a drain throws away, are nobody's business.
Matters(c, p) == c.op # "drop" /\ (c.op = "dev_read" => p[8] # STATUS)

\* b is somewhere in l.
Within(b, l) == \E k \in 0..(Len(l) - Len(b)) : SubSeq(l, k + 1, k + Len(b)) = b
Logged(p) == \E l \in note.said : Within(SubSeq(p, 1, Len(p) - 2), l)

\* The noise that was logged without need: it must be there.
Early == Drop(note.noise, Len(note.got.noise))

InitLog == Init /\ note = Quiet

Unlogged ==
    IF note.sent # <<>> /\ note.whole /\ WellFormed(note.sent) /\ ~Logged(note.sent) THEN <<"log.sent", note.sent>>
    ELSE IF ~CanReturn(st, Ev.r) THEN <<>>
    ELSE IF \E k \in 1..Len(note.got.pkt) : Matters(st.c, note.got.pkt[k]) /\ ~Logged(note.got.pkt[k])
    THEN <<"log.received", note.got.pkt>>
    ELSE IF st.c.op # "drop" /\ ~IsPrefix(note.got.noise, note.noise) THEN <<"log.noise", note.got.noise, note.noise>>
    ELSE IF st.c.op # "drop" /\ ~IsPrefix(Early, SubSeq(st.rx, 1, GarbageLen(st.rx))) THEN <<"log.noise", note.got.noise, note.noise>>
    ELSE <<>>

Record(b) == IF Within(HEADER, b) THEN [note EXCEPT !.said = @ \cup {b}] ELSE [note EXCEPT !.noise = @ \o b]

NextLog ==
    IF verdict[1] = "ok" /\ i <= Len(Session.ev) /\ Ev.e = "log"
    THEN /\ i' = i + 1
         /\ note' = IF Ev.lv = "trace" THEN Record(Ev.b) ELSE note
         /\ UNCHANGED <<sid, st, verdict>>
    ELSE IF verdict[1] = "ok" /\ i <= Len(Session.ev) /\ Ev.e = "ret" /\ Unlogged # <<>>
    THEN /\ PrintT(<<"MISMATCH", ToString(Session.id), i, Unlogged, Ev, note.said>>)
         /\ i' = i + 1
         /\ verdict' = <<"violation", Unlogged[1]>>
         /\ UNCHANGED <<sid, st, note>>
    ELSE /\ Next
         /\ note' = CASE Ev.e = "call" -> [note EXCEPT !.got = Gone(st.rx, st'.rx)]
                      [] Ev.e = "disc" -> [note EXCEPT !.noise = <<>>, !.got = Nothing]
                      [] Ev.e = "tx"   -> [note EXCEPT !.sent = @ \o Ev.b, !.whole = @ /\ Ev.ok]
                      [] Ev.e = "rd" /\ Ev.got
                                       -> [note EXCEPT !.got = Both(@, Gone(st.rx \o Ev.b, st'.rx))]
                      [] Ev.e = "ret"  -> [Quiet EXCEPT !.noise = IF st.c.op = "drop" THEN <<>> ELSE Early]
                      [] OTHER         -> note

SpecLog == InitLog /\ [][NextLog]_<<vars, note>>
=============================================================================
