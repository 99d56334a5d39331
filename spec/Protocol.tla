------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* Meaning of the operations of the library in terms of packets: what each *)
(* client method must send, which replies it accepts, how long it waits,   *)
(* and how a device must understand an instruction.                        *)
(***************************************************************************)
EXTENDS Receiver

-----------------------------------------------------------------------------
\* Points in time and durations: <<seconds, nanoseconds>>.
TPlus(a, b) == LET n == a[2] + b[2]
               IN  <<a[1] + b[1] + n \div 1000000000, n % 1000000000>>
TLeq(a, b)  == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Ms(n)       == <<n \div 1000, (n % 1000) * 1000000>>

\* Baud rates go up to 2^32 - 1 but TLC's integers have 32 bits, so they are
\* given as <<millions, rest>>, and so is the remainder of the long division.
PLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PMinus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>>
                ELSE <<a[1] - b[1] - 1, a[2] + 1000000 - b[2]>>
PTimes10(a) == <<a[1] * 10 + (a[2] * 10) \div 1000000, (a[2] * 10) % 1000000>>
RECURSIVE PDiv(_, _, _)                     \* quotient (small) and remainder
PDiv(a, b, q) == IF PLess(a, b) THEN <<q, a>> ELSE PDiv(PMinus(a, b), b, q + 1)

\* The next n decimal digits of num/den < 1 as an integer, rounded up.
RECURSIVE Digits(_, _, _, _)
Digits(num, den, n, acc) ==
    IF n = 0 THEN acc + (IF num # <<0, 0>> THEN 1 ELSE 0)
    ELSE LET qr == PDiv(PTimes10(num), den, 0) IN Digits(qr[2], den, n - 1, acc * 10 + qr[1])

\* Time on the line of a message of `size` bytes: 10 bits per byte.
TransferTime(size, baud) ==
    LET bits == 10 * size                           \* < 1 000 000
        secs == IF baud[1] > 0 THEN 0 ELSE bits \div baud[2]
        rem  == IF baud[1] > 0 THEN bits ELSE bits % baud[2]
        ns   == Digits(<<0, rem>>, baud, 9, 0)
    IN  TPlus(<<secs, 0>>, <<ns \div 1000000000, ns % 1000000000>>)

\* 253 times a duration.
Times253(t) == LET hi == (t[2] \div 1000000) * 253        \* milliseconds
                   lo == (t[2] % 1000000) * 253           \* nanoseconds
               IN  TPlus(TPlus(<<t[1] * 253, 0>>, Ms(hi)), <<lo \div 1000000000, lo % 1000000000>>)

ReplyTimeout(params, baud) == TPlus(TransferTime(11 + params, baud), Ms(34))
ScanTimeout(baud)          == TPlus(Times253(TransferTime(14, baud)), Ms(34))

-----------------------------------------------------------------------------
\* Results of operations, as they appear in traces.
Unit            == [k |-> "unit"]
Num(n)          == [k |-> "num", n |-> n]
Hint(lo, hi)    == [k |-> "hint", lo |-> lo, hi |-> hi]
BaudIs(b)       == [k |-> "baud", b |-> b]
NoneLeft        == [k |-> "none"]
Handle          == [k |-> "handle"]
Panic           == [k |-> "panic"]
Ok(i, al, d)    == [k |-> "ok", id |-> i, alert |-> al, data |-> d]
Status(i, e, d) == [k |-> "status", id |-> i, ins |-> STATUS, err |-> e, errno |-> e % 128, alert |-> e >= 128, data |-> d]
Err(e, a, b, x) == [k |-> "err", e |-> e, a |-> a, b |-> b, x |-> x]

EBufTooSmall(req, tot) == Err("BufferTooSmall", req, tot, "")
EBufFull(req, tot)     == Err("BufferFull", req, tot, "")
EDiscard(c)            == Err("DiscardBuffer", c, 0, "")
EWrite(c)              == Err("Write", c, 0, "")
EIo(c)                 == Err("Io", c, 0, "")
EPort(c)               == Err("Port", c, 0, "")
EChecksum(m, c)        == Err("InvalidChecksum", m, c, "")
EPacketId(a, x)        == Err("InvalidPacketId", a, x, "")
EInstruction(a, x)     == Err("InvalidInstruction", a, x, "")
EParams(a, n, how)     == Err("InvalidParameterCount", a, n, how)
EMotor(raw)            == Err("MotorError", raw, 0, "")

TIMEOUT == 0    \* the error code of a timeout at the port

-----------------------------------------------------------------------------
\* Parameters of the requests.
ClearRevolutions == <<1, 68, 88, 76, 34>>     \* 0x01 'D' 'X' 'L' '"'
ClearErrors      == <<2, 69, 82, 67, 76>>     \* 0x02 'E' 'R' 'C' 'L'

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
MapSeq(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]

SyncReadParams(c)  == LE16(c.addr) \o LE16(c.count) \o c.ids
SyncWriteParams(c) == LE16(c.addr) \o LE16(c.count) \o
                      Concat(MapSeq(c.items, LAMBDA w : <<w.id>> \o w.data))
BulkReadParams(c)  == Concat(MapSeq(c.items, LAMBDA w : <<w.id>> \o LE16(w.addr) \o LE16(w.count)))
BulkWriteParams(c) == Concat(MapSeq(c.items, LAMBDA w : <<w.id>> \o LE16(w.addr) \o LE16(Len(w.data)) \o w.data))

Msg(id, ins, par) == [id |-> id, ins |-> ins, par |-> par]
\* The message each operation sends.
MessageOf(c) ==
    CASE c.op = "ping"           -> Msg(c.id, PING, <<>>)
      [] c.op = "scan"           -> Msg(BROADCAST, PING, <<>>)
      [] c.op = "read"           -> Msg(c.id, READ, LE16(c.addr) \o LE16(c.count))
      [] c.op = "write"          -> Msg(c.id, WRITE, LE16(c.addr) \o c.data)
      [] c.op = "reg_write"      -> Msg(c.id, REG_WRITE, LE16(c.addr) \o c.data)
      [] c.op = "action"         -> Msg(c.id, DO_ACTION, <<>>)
      [] c.op = "reboot"         -> Msg(c.id, REBOOT, <<>>)
      [] c.op = "clear_rev"      -> Msg(c.id, CLEAR, ClearRevolutions)
      [] c.op = "clear_err"      -> Msg(c.id, CLEAR, ClearErrors)
      [] c.op = "factory_reset"  -> Msg(c.id, FACTORY_RESET, <<c.kind>>)
      [] c.op = "sync_read"      -> Msg(BROADCAST, SYNC_READ, SyncReadParams(c))
      [] c.op = "sync_write"     -> Msg(BROADCAST, SYNC_WRITE, SyncWriteParams(c))
      [] c.op = "bulk_read"      -> Msg(BROADCAST, BULK_READ, BulkReadParams(c))
      [] c.op = "bulk_write"     -> Msg(BROADCAST, BULK_WRITE, BulkWriteParams(c))
      [] c.op \in {"raw_write", "raw_xfer"} -> Msg(c.id, c.ins, c.data)
      [] c.op = "dev_status"     -> Msg(c.id, STATUS, <<c.err>> \o c.data)

Sends(c) == c.op \in {"ping", "scan", "read", "write", "reg_write", "action", "reboot",
                      "clear_rev", "clear_err", "factory_reset", "sync_read", "sync_write",
                      "bulk_read", "bulk_write", "raw_write", "raw_xfer", "dev_status"}

\* A type may be unable to encode or decode some of its values.
NoCodec(ty, data) == \/ ty \in {"fussy", "fussyx2"} /\ data[1] = 238
                     \/ ty = "fussyx2" /\ data[5] = 238
Type(c) == IF "ty" \in DOMAIN c THEN c.ty ELSE ""
NotEncoded(c) ==
    \/ c.op \in {"write", "reg_write"} /\ NoCodec(Type(c), c.data)
    \/ c.op = "sync_write" /\ \E i \in 1..Len(c.items) : NoCodec(Type(c), c.items[i].data)
ENotEncoded == EBufTooSmall(77, 7)
ENotDecoded == EParams(66, 6, "exact")

\* Requests that must be refused with a panic.
Duplicate(items) == \E i, j \in 1..Len(items) : i < j /\ items[i].id = items[j].id
Forbidden(c) ==
    CASE c.op = "bulk_read"  -> Duplicate(c.items)
      [] c.op = "bulk_write" -> Duplicate(c.items) \/ \E i \in 1..Len(c.items) : Len(c.items[i].data) > 65535
      [] c.op = "sync_write" -> \E i \in 1..Len(c.items) : Len(c.items[i].data) # c.count
      [] OTHER -> FALSE
\* Size of a forbidden request, in case its size is checked first.
ForbiddenSize(c) ==
    IF c.op = "sync_write" THEN 14 + Len(c.items) * (1 + c.count) ELSE 0

\* Why a message can not be sent with a write buffer of wcap bytes, as the set
\* of errors that describe it.  Empty: it must be sent.
MaxLen == 65535
Refusals(m, wcap) ==
    LET plain == PlainSize(m.par) IN
    IF plain > wcap /\ plain > 100000
    THEN {EBufTooSmall(plain, wcap)}      \* spare TLC the stuffing of huge messages
    ELSE LET stuffed == StuffedSize(m.ins, m.par) IN
         IF plain > wcap THEN {EBufTooSmall(plain, wcap), EBufTooSmall(stuffed, wcap)}
         ELSE IF stuffed > wcap THEN {EBufTooSmall(stuffed, wcap)}
         ELSE IF stuffed - 7 > MaxLen THEN {EBufTooSmall(stuffed - 7, MaxLen)}
         ELSE {}

-----------------------------------------------------------------------------
\* Replies.  Every operation of the client is in one of these classes.
MultiRead(c) == c.op \in {"sync_read", "bulk_read"}
AckOps == {"write", "reg_write", "action", "reboot", "clear_rev", "clear_err", "factory_reset"}

\* One reply follows the message, and is awaited within the same call.
AwaitsReply(c) ==
    \/ c.op \in AckOps /\ c.id # BROADCAST
    \/ c.op \in {"ping", "read", "raw_xfer"}
\* The number of parameters assumed for the timeout.
ReplyParams(c) == CASE c.op \in AckOps -> 0
                    [] c.op = "ping" -> 3
                    [] c.op = "read" -> c.count
                    [] c.op \in {"raw_xfer", "raw_read"} -> c.expect
\* The result of an operation that awaits no reply.
NoReplyResult(c) ==
    IF c.op \in AckOps /\ ~c.bcast THEN Ok(BROADCAST, FALSE, <<>>)
    ELSE IF MultiRead(c) \/ c.op = "scan" THEN Handle
    ELSE Unit

\* Judgement of a packet as a reply.  id = -1: from anyone; n = -1: any number
\* of parameters.  All discrepancies that can be named in an error, or success.
Discrepancies(p, id, n) ==
    IF p.ins # STATUS THEN {EInstruction(p.ins, STATUS)}
    ELSE (IF p.par[1] % 128 # 0 THEN {EMotor(p.par[1])} ELSE {})
         \cup (IF id # -1 /\ p.id # id THEN {EPacketId(p.id, id)} ELSE {})
         \cup (IF n # -1 /\ Len(p.par) - 1 # n THEN {EParams(Len(p.par) - 1, n, "exact")} ELSE {})

OkReply(p)     == Ok(p.id, p.par[1] >= 128, Tail(p.par))
TypedReply(ty, p) == IF NoCodec(ty, Tail(p.par)) THEN ENotDecoded ELSE OkReply(p)
StatusReply(p) == Status(p.id, p.par[1], Tail(p.par))

\* What a single wait of the client may report for outcome o of Scan.
Faults(o) ==
    CASE o.k = "crc"   -> {EChecksum(o.msg, o.comp)}
      [] o.k = "full"  -> {EBufFull(o.req, o.tot)}
      [] o.k = "short" -> {EParams(o.len, 3, "min")}
      [] o.k = "noerr" -> {EParams(0, 1, "min")}

Judge(o, id, n, good(_)) ==
    IF o.k # "pkt" THEN Faults(o)
    ELSE LET d == Discrepancies(o, id, n) IN IF d = {} THEN {good(o)} ELSE d

-----------------------------------------------------------------------------
\* Instructions as understood by a device.
Instr(id, op, a, b, x, d) == [k |-> "instr", id |-> id, op |-> op, a |-> a, b |-> b, x |-> x, data |-> d]

DecodeInstr(id, ins, p) ==
    LET n == Len(p)
        exact(m, r) == IF n # m THEN {EParams(n, m, "exact")} ELSE {r}
        least(m, r) == IF n < m THEN {EParams(n, m, "min")} ELSE {r}
        w(i) == IF i + 1 <= n THEN U16(p[i], p[i + 1]) ELSE 0
        c(i) == IF i <= n THEN p[i] ELSE 0
    IN
    CASE ins = PING       -> {Instr(id, "Ping", 0, 0, "", <<>>)}
      [] ins = READ       -> exact(4, Instr(id, "Read", w(1), w(3), "", <<>>))
      [] ins = WRITE      -> least(2, Instr(id, "Write", w(1), 0, "", Drop(p, 2)))
      [] ins = REG_WRITE  -> least(2, Instr(id, "RegWrite", w(1), 0, "", Drop(p, 2)))
      [] ins = DO_ACTION     -> {Instr(id, "Action", 0, 0, "", <<>>)}
      [] ins = FACTORY_RESET ->
            exact(1, Instr(id, "FactoryReset",
                           IF c(1) \in {255, 1, 2} THEN 0 ELSE c(1), 0,
                           CASE c(1) = 255 -> "All" [] c(1) = 1 -> "ExceptId"
                             [] c(1) = 2 -> "ExceptIdBaudRate" [] OTHER -> "Unknown", <<>>))
      [] ins = REBOOT     -> {Instr(id, "Reboot", 0, 0, "", <<>>)}
      [] ins = CLEAR ->
            least(1, Instr(id, "Clear",
                           IF c(1) \in {1, 2} THEN 0 ELSE c(1), 0,
                           CASE c(1) = 1 -> "MultiTurns" [] c(1) = 2 -> "Errors" [] OTHER -> "Reserved", <<>>))
      [] ins = SYNC_READ  -> least(4, Instr(id, "SyncRead", w(1), w(3), "", Drop(p, 4)))
      [] ins = SYNC_WRITE -> least(4, Instr(id, "SyncWrite", w(1), w(3), "", Drop(p, 4)))
      [] ins = BULK_READ  -> {Instr(id, "BulkRead", 0, 0, "", p)}
      [] ins = BULK_WRITE -> {Instr(id, "BulkWrite", 0, 0, "", p)}
      [] OTHER            -> {Instr(id, "Unknown", ins, 0, "", p)}

RawInstr(p) == [k |-> "raw", id |-> p.id, ins |-> p.ins, data |-> p.par]

=============================================================================
