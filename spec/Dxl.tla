-------------------------------- MODULE Dxl --------------------------------
(***************************************************************************)
(* One client or device of the library as an open state machine.           *)
(*                                                                         *)
(* The environment calls operations and decides what the serial port does: *)
(* which bytes a read returns, when, and which accesses fail.  The machine *)
(* says which accesses the library makes, and what it returns.             *)
(*                                                                         *)
(*   idle --Begin--> send --Discard--> send --Transmit--> recv --PortRead  *)
(*     ^              |                                    |   ^----'      *)
(*     '----Return-- done <--------------------------------'               *)
(*                                                                         *)
(* The state is one record, so that the same functions serve the closed    *)
(* design models and the validation of recorded traces:                    *)
(*   clk    the current time                                               *)
(*   rcap, wcap   sizes of the read and write buffer                       *)
(*   baud   the known baud rate                                            *)
(*   rx     bytes read from the port and not consumed yet                  *)
(*   maybe  rx may have been thrown away: a request failed half-way        *)
(*   c      the operation in progress                                      *)
(*   stage  idle, getb, setb (waiting for that access), send, recv, done   *)
(*   msg, cleared   send: bytes left to write; input discarded?            *)
(*   dl     recv: the deadline of the current wait                         *)
(*   outs   done: the results the operation may return                     *)
(*   early  recv: results it may return without waiting any longer         *)
(*   it     the multi-motor read in progress: what is still outstanding    *)
(*   tries  number of waits since the current drain started                *)
(***************************************************************************)
EXTENDS Codec

NoIter == [op |-> "none", ty |-> "", left |-> <<>>, ended |-> FALSE]
NoCall == [op |-> "none"]

Start(rcap, wcap) ==
    [clk |-> <<0, 0>>, rcap |-> rcap, wcap |-> wcap, baud |-> <<0, 1>>,
     rx |-> <<>>, maybe |-> FALSE, c |-> NoCall, stage |-> "idle", msg |-> <<>>,
     cleared |-> FALSE, dl |-> <<0, 0>>, outs |-> {}, early |-> {}, it |-> NoIter, tries |-> 0]

Finish(st, outs) == [st EXCEPT !.stage = "done", !.outs = outs]

MaxMotors == 253

-----------------------------------------------------------------------------
\* Waiting for packets.

\* What the packet (or error) o at the head of the input means for the
\* operation in progress: the set of results.
Verdict(st, o) ==
    LET c == st.c IN
    CASE c.op \in AckOps      -> Judge(o, c.id, 0, OkReply)
      [] c.op = "ping"        -> Judge(o, c.id, 3, OkReply)
      [] c.op = "read"        -> Judge(o, c.id, c.count, LAMBDA p : TypedReply(Type(c), p))
      [] c.op = "raw_xfer"    -> Judge(o, c.id, -1, StatusReply)
      [] c.op \in {"raw_read", "raw_read_t"} -> Judge(o, -1, -1, StatusReply)
      [] c.op = "next"        -> IF st.it.op = "scan" THEN Judge(o, -1, 3, OkReply)
                                 ELSE Judge(o, c.want.id, c.want.count, LAMBDA p : TypedReply(st.it.ty, p))
      [] c.op = "dev_read"    -> IF o.k # "pkt" THEN Faults(o)
                                 ELSE IF c.via = "raw" THEN {RawInstr(o)}
                                 ELSE DecodeInstr(o.id, o.ins, o.par)

RECURSIVE Settle(_), Attempt(_), BeginNext(_)

\* An item of a multi-motor read is there.  It may be one that is to be skipped.
Skip(c) == IF "skip" \in DOMAIN c THEN c.skip ELSE 0
Item(st, outs) ==
    IF st.c.op = "next" /\ Skip(st.c) > 0
    THEN BeginNext([st EXCEPT !.c = [op |-> "next", skip |-> Skip(st.c) - 1]])
    ELSE Finish(st, outs)

\* Consume what has been received, as far as it goes.
Settle(st) ==
    LET o == Scan(st.rx, st.rcap)
        s == [st EXCEPT !.rx = o.rest]
    IN
    IF o.k = "need" THEN s
    ELSE IF st.c.op = "drop" THEN Attempt(s)
    ELSE IF st.c.op = "dev_read" /\ o.k = "pkt" /\ o.ins = STATUS THEN Settle(s)
    ELSE Item(s, Verdict(st, o))

Wait(st, timeout) == Settle([st EXCEPT !.stage = "recv", !.dl = TPlus(st.clk, timeout)])

\* The next wait of a drain.
Attempt(st) ==
    IF st.it.op = "scan"
    THEN IF st.tries = MaxMotors THEN Finish(st, {Unit})
         ELSE Wait([st EXCEPT !.tries = @ + 1], ScanTimeout(st.baud))
    ELSE IF st.it.left = <<>> THEN Finish(st, {Unit})
    ELSE Wait([st EXCEPT !.it.left = Tail(@)], ReplyTimeout(Head(st.it.left).count, st.baud))

-----------------------------------------------------------------------------
\* The environment calls an operation.

Outstanding(c) ==
    CASE c.op = "sync_read" -> MapSeq(c.ids, LAMBDA i : [id |-> i, count |-> c.count])
      [] c.op = "bulk_read" -> MapSeq(c.items, LAMBDA r : [id |-> r.id, count |-> r.count])
      [] OTHER -> <<>>

BeginSend(st) ==
    LET c == st.c
        m == MessageOf(c)
        failing == "encfail" \in DOMAIN c \/ NotEncoded(c)
    IN
    IF Forbidden(c)
    THEN Finish(st, {Panic} \cup (IF ForbiddenSize(c) > st.wcap
                                  THEN {EBufTooSmall(ForbiddenSize(c), st.wcap)} ELSE {}))
    ELSE IF failing /\ PlainSize(m.par) <= st.wcap 
    THEN Finish(st, {IF NotEncoded(c) THEN ENotEncoded ELSE EBufTooSmall(c.encfail[1], c.encfail[2])})
    ELSE LET no == Refusals(m, st.wcap) IN
         IF no # {} THEN Finish(st, no)
         ELSE [st EXCEPT !.stage = "send", !.cleared = FALSE, !.msg = Frame(m.id, m.ins, m.par)]

BeginNext(st) ==
    IF st.it.op = "scan"
    THEN LET w == Wait([st EXCEPT !.early = IF st.it.ended THEN {NoneLeft} ELSE {}], ScanTimeout(st.baud))
         IN  w
    ELSE IF st.it.left = <<>> THEN Finish(st, {NoneLeft})
    ELSE LET want == Head(st.it.left)
         IN  Wait([st EXCEPT !.it.left = Tail(@), !.c = [op |-> "next", want |-> want, skip |-> Skip(st.c)]],
                  ReplyTimeout(want.count, st.baud))

Begin(st0, c) ==
    LET st == [st0 EXCEPT !.c = c, !.outs = {}, !.early = {}, !.tries = 0] IN
    CASE c.op = "new"        -> [st EXCEPT !.stage = "getb"]
      [] c.op = "set_baud"   -> [st EXCEPT !.stage = "setb"]
      [] c.op = "baud"       -> Finish(st, {BaudIs(st.baud)})
      [] Sends(c)            -> BeginSend(st)
      [] c.op = "raw_read"   -> Wait(st, ReplyTimeout(c.expect, st.baud))
      [] c.op \in {"raw_read_t", "dev_read"} -> Wait(st, c.timeout)
      [] c.op = "next"       -> BeginNext(st)
      [] c.op = "rem"        -> Finish(st, {Num(Len(st.it.left))})
      [] c.op = "hint"       -> Finish(st, {Hint(0, IF st.it.op = "scan" THEN -1 ELSE Len(st.it.left))})
      [] c.op = "forget"     -> Finish([st EXCEPT !.it = NoIter], {Unit})
      [] IsCodec(c)          -> Finish(st, CodecResults(c))
      [] IsErrors(c)         -> Finish(st, {})
      [] c.op = "drop"       -> Attempt([st EXCEPT !.early = IF st.it.ended THEN {Unit} ELSE {}])

-----------------------------------------------------------------------------
\* The library accesses the port.

GetBaudOk(st, baud)   == Finish([st EXCEPT !.baud = baud], {Unit})
GetBaudFail(st, code) == Finish(st, {EPort(code)})
SetBaudOk(st)         == Finish([st EXCEPT !.baud = st.c.baud], {Unit})
SetBaudFail(st, code) == Finish(st, {EPort(code)})

CanDiscard(st) == st.stage = "send" /\ ~st.cleared
DiscardOk(st)  == [st EXCEPT !.cleared = TRUE, !.rx = <<>>, !.maybe = FALSE]
DiscardFail(st, code) == Finish([st EXCEPT !.maybe = TRUE], {EDiscard(code)})

CanTransmit(st, b) == st.stage = "send" /\ st.cleared /\ b # <<>> /\ IsPrefix(b, st.msg)
TransmitOk(st, b) ==
    LET rest == Drop(st.msg, Len(b))
        s == [st EXCEPT !.msg = rest]
        c == st.c
    IN
    IF rest # <<>> THEN s
    ELSE IF AwaitsReply(c) THEN Wait(s, ReplyTimeout(ReplyParams(c), st.baud))
    ELSE IF c.op = "scan" \/ MultiRead(c)
    THEN Finish([s EXCEPT !.it = [op |-> c.op, ty |-> Type(c), left |-> Outstanding(c), ended |-> FALSE]], {Handle})
    ELSE Finish(s, {NoReplyResult(c)})
TransmitFail(st, code) == Finish(st, {EWrite(code)})

CanRead(st) == st.stage = "recv"
ReadGot(st, b) == Settle([st EXCEPT !.rx = @ \o b])
ReadFail(st, code) ==
    IF st.c.op = "drop"
    THEN IF st.it.op = "scan"
         THEN IF code = TIMEOUT THEN Finish(st, {Unit})
              ELSE LET s == Attempt(st)      \* it may also give up on other failures
                   IN  IF s.stage = "recv" THEN [s EXCEPT !.early = @ \cup {Unit}] ELSE s
         ELSE Attempt(st)
    ELSE IF st.c.op = "next" /\ st.it.op = "scan" /\ code = TIMEOUT
    THEN Finish([st EXCEPT !.it.ended = TRUE], {NoneLeft})
    ELSE Item(st, {EIo(code)})

\* The number of items to come: the upper bound is exact, unless it is unknown.
HintOk(st, r) == /\ r.k = "hint" /\ st.it.op # "scan"
                 /\ r.hi = Len(st.it.left) /\ r.lo \in 0..r.hi
\* The operation returns.
CanReturn(st, r) == \/ st.stage = "done" /\ r \in st.outs
                    \/ st.stage = "done" /\ st.c.op = "track" /\ TrackOk(st.c, r)
                    \/ st.stage = "done" /\ IsErrors(st.c) /\ SaysOk(st.c, r)
                    \/ st.stage = "done" /\ st.c.op = "hint" /\ HintOk(st, r)
                    \/ st.stage = "recv" /\ r \in st.early
Return(st) == [st EXCEPT !.stage = "idle", !.outs = {}, !.early = {}, !.msg = <<>>,
                         !.it = IF st.c.op = "drop" THEN NoIter ELSE @, !.c = NoCall]

=============================================================================
