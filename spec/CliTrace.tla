------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Validation of recorded runs of the command line tool.  A run says what  *)
(* was asked for (c: the operation, or valid = FALSE), what was sent at    *)
(* which baud rate, what was replied, and how the tool ended.              *)
(***************************************************************************)
EXTENDS Protocol, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.TRACE)
BUFFER == 128
VARIABLES run, verdict
Run == Runs[run]

\* Decimal digits of a number given by its little-endian bytes.
RECURSIVE Div10(_, _, _)       \* big-endian bytes -> <<quotient, remainder>>
Div10(b, q, r) == IF b = <<>> THEN <<q, r>>
                  ELSE LET x == r * 256 + b[1] IN Div10(Tail(b), Append(q, x \div 10), x % 10)
RECURSIVE Digits10(_)
Digits10(b) == LET d == Div10(b, <<>>, 0)
                   rest == \A i \in 1..Len(d[1]) : d[1][i] = 0
               IN  IF rest THEN <<d[2]>> ELSE Append(Digits10(d[1]), d[2])
Decimal(le) == Digits10(Reverse(le))

Printed(tokens, wanted) ==     \* one after the other
    \E i \in 0..Len(tokens) : i + Len(wanted) <= Len(tokens) /\ \A k \in 1..Len(wanted) : tokens[i + k] = wanted[k]

IsRead(c) == c.op = "read"
Refused(r) == ~r.valid \/ (IsRead(r.c) /\ r.c.id = BROADCAST)
Fits(r)    == Refusals(MessageOf(r.c), BUFFER) = {}
Scanning(r) == r.c.op = "scan"
Reply(r)   == Scan(r.reply, BUFFER)
\* Is the reply of the motor acceptable?
Good(r) ==
    IF ~AwaitsReply(r.c) THEN TRUE
    ELSE LET o == Reply(r) IN
         /\ o.k = "pkt"
         /\ Discrepancies(o, r.c.id, IF r.c.op \in AckOps THEN 0 ELSE ReplyParams(r.c)) = {}
\* The motors that a scan finds: replies that are faulty do not end it.
Accepted(o) == o.k = "pkt" /\ Discrepancies(o, -1, 3) = {}
Found(r)    == SelectSeq(ParseAll(r.reply, BUFFER), Accepted)
GoodScan(r) == \A i \in 1..Len(ParseAll(r.reply, BUFFER)) : Accepted(ParseAll(r.reply, BUFFER)[i])

\* The value a read must print: the number, or the single bytes.
Value(r) == LET d == Tail(Reply(r).par) IN
            IF r.width > 0 THEN <<Decimal(d)>> ELSE MapSeq(d, LAMBDA b : Decimal(<<b>>))

\* One after the other, but perhaps with others in between.
RECURSIVE Among(_, _)
Among(wanted, tokens) ==
    \/ wanted = <<>>
    \/ /\ tokens # <<>>
       /\ Among(IF wanted[1] = tokens[1] THEN Tail(wanted) ELSE wanted, Tail(tokens))

\* What a ping prints: the model and the firmware.
Device(o) == <<Decimal(<<o.par[2], o.par[3]>>), Decimal(<<o.par[4]>>)>>
Devices(r) == LET all == Found(r) IN
              FlattenSeq([i \in 1..Len(all) |-> <<Decimal(<<all[i].id>>)>> \o Device(all[i])])
Alert(o) == o.par[1] >= 128

\* The completion scripts: to standard output, to standard output by name, to a file that is there already;
\* to a file that can not be, and to a file and standard output where there is no space left.
Completion(r) ==
    IF \E i \in 1..3 : r.codes[i] # 0 THEN "fails"
    ELSE IF \E i \in 4..6 : r.codes[i] = 0 THEN "succeeds without writing"
    ELSE IF r.dash # r.plain THEN "writes something else to -"
    ELSE IF r.file # r.plain THEN "writes something else to a file"
    ELSE IF r.rest # <<>> THEN "writes to standard output as well"
    ELSE IF r.named # r.commands THEN "completes not all commands"
    ELSE "ok"

\* A number in hexadecimal next to the value that was read is that value.
RECURSIVE Trim(_)
Trim(le) == IF le = <<>> \/ le[Len(le)] # 0 THEN le ELSE Trim(SubSeq(le, 1, Len(le) - 1))
SameInHex(r) ==
    \A i \in 1..Len(r.lines) :
        r.width > 0 /\ Printed(r.lines[i].t, Value(r)) =>
            \A k \in 1..Len(r.lines[i].h) : r.lines[i].h[k] = Trim(Tail(Reply(r).par))

Judgement(r) ==
    IF r.code = -1 THEN "does not end"
    ELSE IF r.code = 101 \/ r.code < 0 THEN "crashes"
    ELSE IF r.c.op = "completion" THEN Completion(r)
    ELSE IF Refused(r) THEN IF r.tx # <<>> THEN "sends something instead of refusing"
                            ELSE IF r.code = 0 THEN "succeeds instead of refusing" ELSE "ok"
    ELSE IF ~Fits(r) THEN IF r.tx # <<>> THEN "sends what does not fit" ELSE IF r.code = 0 THEN "succeeds without sending" ELSE "ok"
    ELSE LET m == MessageOf(r.c) IN
         IF r.tx # Frame(m.id, m.ins, m.par) THEN IF r.tx = <<>> THEN "does not send" ELSE "sends another message"
         ELSE IF r.speed # r.baud THEN "sends at another baud rate"
         ELSE IF Scanning(r) THEN LET alert == \E i \in 1..Len(Found(r)) : Alert(Found(r)[i]) IN
                                  IF GoodScan(r) /\ r.code # 0 THEN "fails"
                                  ELSE IF ~Among(Devices(r), r.tokens) THEN "does not print what was found"
                                  ELSE IF (IF GoodScan(r) THEN r.alert # alert ELSE alert /\ ~r.alert) THEN "is wrong about an alert"
                                  ELSE "ok"
         ELSE IF Good(r) # (r.code = 0) THEN IF r.code = 0 THEN "succeeds without an acceptable reply" ELSE "fails with an acceptable reply"
         ELSE IF r.code = 0 /\ IsRead(r.c) /\ ~Printed(r.tokens, Value(r)) THEN "does not print the value"
         ELSE IF r.code = 0 /\ IsRead(r.c) /\ ~SameInHex(r) THEN "prints another value in hexadecimal"
         ELSE IF r.code = 0 /\ r.c.op = "ping" /\ ~Among(Device(Reply(r)), r.tokens) THEN "does not print the model and firmware"
         ELSE IF r.code = 0 /\ AwaitsReply(r.c) /\ r.alert # Alert(Reply(r)) THEN "is wrong about an alert"
         ELSE "ok"

Init == run = 1 /\ verdict = "ok"
Next == /\ run <= Len(Runs)
        /\ run' = run + 1
        /\ verdict' = Judgement(Run)
        /\ verdict' # "ok" => PrintT(<<"MISMATCH", Run.id, verdict'>>)
Spec == Init /\ [][Next]_<<run, verdict>>
=============================================================================
