------------------------------- MODULE MCBus -------------------------------
(***************************************************************************)
(* A client and two motors on one bus, closed: the participants are the    *)
(* machines of Dxl, a motor is a register with the usual instructions, and *)
(* the medium loses or alters a bounded number of messages on their way to *)
(* one participant.  Answers come before the client gives up waiting: it   *)
(* times out only when the bus is at rest (set Late to see what is lost    *)
(* without that).                                                          *)
(***************************************************************************)
EXTENDS Dxl, Json

CONSTANTS MaxCalls, MaxFaults, Late, Emitting

Ids == <<1, 2>>
N   == 2
REG == 10                  \* address of the register of one byte
BAUD == <<0, 57600>>

VARIABLES cl, dv, wire, more, due, reg, held, calls, faults, hist, ghost
vars == <<cl, dv, wire, more, due, reg, held, calls, faults, hist, ghost>>

\* The k-th call is about the value k.
Write(i, k)    == [op |-> "write", id |-> i, addr |-> REG, ty |-> "u8", data |-> <<k>>, bcast |-> FALSE]
RegWrite(i, k) == [op |-> "reg_write", id |-> i, addr |-> REG, ty |-> "u8", data |-> <<k>>, bcast |-> FALSE]
Read(i)        == [op |-> "read", id |-> i, addr |-> REG, ty |-> "u8", count |-> 1]
Calls(k) == { Write(1, k), Write(BROADCAST, k), RegWrite(2, k), Read(1), Read(2),
              [op |-> "action", id |-> BROADCAST, bcast |-> TRUE],
              [op |-> "sync_write", addr |-> REG, count |-> 1, ty |-> "bytes", items |-> <<[id |-> 1, data |-> <<k>>], [id |-> 2, data |-> <<100 + k>>]>>],
              [op |-> "sync_read", addr |-> REG, count |-> 1, ty |-> "bytes", ids |-> <<2, 1>>, plan |-> <<"next", "next">>],
              [op |-> "ping", id |-> 1] }
Plain(c) == [x \in DOMAIN c \ {"plan"} |-> c[x]]

Init == /\ cl = [Start(64, 64) EXCEPT !.baud = BAUD]
        /\ dv = [p \in 1..N |-> [Start(64, 64) EXCEPT !.baud = BAUD]]
        /\ wire = [p \in 0..N |-> <<>>] /\ more = [p \in 1..N |-> FALSE]
        /\ due = <<>>
        /\ reg = [p \in 1..N |-> 200 + p] /\ held = [p \in 1..N |-> -1]
        /\ calls = <<>> /\ faults = 0
        /\ hist = [sent |-> 0, faults |-> <<>>]
        \* exe: the requests each motor has executed (number of the call); got: results of this call;
        \* was: registers when the call began; hurt: faults at all / in this call
        /\ ghost = [exe |-> [p \in 1..N |-> <<>>], got |-> <<>>, hurt |-> FALSE, now |-> FALSE, said |-> <<>>]

K == Len(calls)
AtRest == \A p \in 1..N : wire[p] = <<>> /\ ~more[p]
Quiet  == AtRest /\ due = <<>>

-----------------------------------------------------------------------------
\* The medium: what reaches the others of b, sent by p.
Flip(b) == [b EXCEPT ![9] = b[9] ^^ 4]
Air(p, b, rest) ==       \* rest: wire without what the sender has discarded
    \/ /\ wire' = [o \in 0..N |-> IF o = p THEN rest[o] ELSE rest[o] \o b]
       /\ hist' = [hist EXCEPT !.sent = @ + 1]
       /\ faults' = faults
       /\ ghost' = ghost
    \/ /\ faults < MaxFaults
       /\ \E o \in (0..N) \ {p}, how \in {"lose", "flip"} :
             /\ wire' = [x \in 0..N |-> IF x = p THEN rest[x]
                                        ELSE rest[x] \o (IF x # o THEN b ELSE IF how = "lose" THEN <<>> ELSE Flip(b))]
             /\ hist' = [hist EXCEPT !.sent = @ + 1, !.faults = Append(@, [at |-> hist.sent, to |-> o, kind |-> how, x |-> 66])]
       /\ faults' = faults + 1
       /\ ghost' = [ghost EXCEPT !.hurt = TRUE, !.now = TRUE]

-----------------------------------------------------------------------------
\* The client.
ClCall ==
    /\ cl.stage = "idle" /\ cl.it.op = "none" /\ K < MaxCalls
    /\ Late \/ Quiet
    /\ \E c \in Calls(K + 1) :
        /\ calls' = Append(calls, c)
        /\ cl' = Begin(cl, Plain(c))
    /\ ghost' = [ghost EXCEPT !.got = <<>>, !.now = FALSE, !.said = <<>>]
    /\ UNCHANGED <<dv, wire, more, due, reg, held, faults, hist>>

\* The input is discarded, and the request is sent.
ClSend ==
    /\ cl.stage = "send"
    /\ LET s == DiscardOk(cl) IN
       /\ cl' = TransmitOk(s, s.msg)
       /\ Air(0, s.msg, [wire EXCEPT ![0] = <<>>])
    /\ UNCHANGED <<dv, more, due, reg, held, calls>>

ClRead ==
    /\ cl.stage = "recv"
    /\ IF wire[0] # <<>>
       THEN \E k \in {1, 8, Len(wire[0])} :
            /\ k <= Len(wire[0])
            /\ cl' = ReadGot(cl, SubSeq(wire[0], 1, k))
            /\ wire' = [wire EXCEPT ![0] = Drop(@, k)]
       ELSE /\ Quiet \/ Late
            /\ cl' = ReadFail(cl, TIMEOUT)
            /\ wire' = wire
    /\ UNCHANGED <<dv, more, due, reg, held, calls, faults, hist, ghost>>

ClRet ==
    /\ cl.stage = "done"
    /\ \E r \in cl.outs : ghost' = [ghost EXCEPT !.got = Append(@, r)]
    /\ cl' = Return(cl)
    /\ UNCHANGED <<dv, wire, more, due, reg, held, calls, faults, hist>>

ClNext ==
    /\ cl.stage = "idle" /\ cl.it.op # "none"
    /\ cl' = Begin(cl, IF cl.it.left = <<>> THEN [op |-> "forget"] ELSE [op |-> "next"])
    /\ UNCHANGED <<dv, wire, more, due, reg, held, calls, faults, hist, ghost>>

-----------------------------------------------------------------------------
\* The motors.
\* A motor reads an instruction: some of what is there, then it times out unless that was enough.
Listen(s, b) == LET a == Begin(s, [op |-> "dev_read", via |-> "ref", timeout |-> <<0, 0>>])
                    g == IF a.stage = "recv" /\ b # <<>> THEN ReadGot(a, b) ELSE a
                IN  IF g.stage = "recv" THEN ReadFail(g, TIMEOUT) ELSE g

SetReg(p, v) == reg' = [reg EXCEPT ![p] = v]
Answer(p, place, r) == due' = Append(due, [p |-> p, place |-> place, c |-> [op |-> "dev_status", via |-> "full", id |-> Ids[p], err |-> 0, data |-> r]])
Heard(p, r) ==
    LET me  == Ids[p]
        all == r.id = BROADCAST
        mine == r.id = me
        at(s) == CHOOSE j \in 1..Len(s) : s[j] = me
    IN
    CASE r.op = "Write" /\ (mine \/ all) /\ r.a = REG /\ Len(r.data) = 1 ->
            /\ SetReg(p, r.data[1]) /\ held' = held
            /\ IF mine THEN Answer(p, 0, <<>>) ELSE due' = due
      [] r.op = "RegWrite" /\ (mine \/ all) /\ r.a = REG /\ Len(r.data) = 1 ->
            /\ reg' = reg /\ held' = [held EXCEPT ![p] = r.data[1]]
            /\ IF mine THEN Answer(p, 0, <<>>) ELSE due' = due
      [] r.op = "Action" /\ (mine \/ all) ->
            /\ IF held[p] >= 0 THEN SetReg(p, held[p]) ELSE reg' = reg
            /\ held' = [held EXCEPT ![p] = -1]
            /\ IF mine THEN Answer(p, 0, <<>>) ELSE due' = due
      [] r.op = "Read" /\ mine /\ r.a = REG /\ r.b = 1 -> Answer(p, 0, <<reg[p]>>) /\ UNCHANGED <<reg, held>>
      [] r.op = "Ping" /\ mine -> Answer(p, 0, <<7, 7, me>>) /\ UNCHANGED <<reg, held>>
      [] r.op = "SyncRead" /\ all /\ r.a = REG /\ r.b = 1 /\ me \in ToSet(r.data) ->
            Answer(p, at(r.data), <<reg[p]>>) /\ UNCHANGED <<reg, held>>
      [] r.op = "SyncWrite" /\ all /\ r.a = REG /\ r.b = 1 /\ \E j \in 1..Len(r.data) : j % 2 = 1 /\ r.data[j] = me ->
            /\ SetReg(p, r.data[1 + CHOOSE j \in 1..Len(r.data) : j % 2 = 1 /\ r.data[j] = me])
            /\ UNCHANGED <<held, due>>
      [] OTHER -> UNCHANGED <<reg, held, due>>

DvRead(p) ==
    /\ wire[p] # <<>> \/ more[p]
    /\ \E k \in {0, 9, Len(wire[p])} :
        /\ k <= Len(wire[p]) /\ (wire[p] # <<>> => k > 0)
        /\ LET s == Listen(dv[p], SubSeq(wire[p], 1, k)) IN
           /\ s.stage = "done"
           /\ dv' = [dv EXCEPT ![p] = Return(s)]
           /\ wire' = [wire EXCEPT ![p] = Drop(@, k)]
           /\ more' = [more EXCEPT ![p] = s.outs # {EIo(TIMEOUT)}]
           /\ \E r \in s.outs :
                IF r.k = "instr"
                THEN /\ Heard(p, r)
                     /\ ghost' = [ghost EXCEPT !.exe[p] = Append(@, <<K, r>>)]
                ELSE UNCHANGED <<reg, held, due, ghost>>
    /\ UNCHANGED <<cl, calls, faults, hist>>

\* The motors answer in the order the request names them.
DvAnswer ==
    /\ AtRest /\ due # <<>>
    /\ \E j \in 1..Len(due) :
        /\ \A x \in 1..Len(due) : due[j].place <= due[x].place
        /\ LET p == due[j].p
               s == DiscardOk(Begin(dv[p], due[j].c))
           IN  /\ s.stage = "send"
               /\ dv' = [dv EXCEPT ![p] = Return(TransmitOk(s, s.msg))]
               /\ Air(p, s.msg, [wire EXCEPT ![p] = <<>>])
        /\ due' = SubSeq(due, 1, j - 1) \o Drop(due, j)
    /\ UNCHANGED <<cl, more, reg, held, calls>>

AtEnd == cl.stage = "idle" /\ cl.it.op = "none" /\ K = MaxCalls /\ Quiet
Stop  == AtEnd /\ UNCHANGED vars

Next == ClCall \/ ClSend \/ ClRead \/ ClRet \/ ClNext \/ (\E p \in 1..N : DvRead(p)) \/ DvAnswer \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Now == calls[K]
Finished == K > 0 /\ cl.stage = "idle" /\ cl.it.op = "none" /\ ghost.got # <<>>
Ok1(r) == r.k = "ok"

\* A motor executes each request at most once, in order, and what was requested.
Executes ==
    \A p \in 1..N : LET e == ghost.exe[p] IN
        /\ \A j \in 1..(Len(e) - 1) : e[j][1] < e[j + 1][1]
        /\ \A j \in 1..Len(e) : LET m == MessageOf(Plain(calls[e[j][1]])) IN e[j][2] \in DecodeInstr(m.id, m.ins, m.par)
\* Without faults every request reaches every motor, and succeeds.
Reliable == Finished /\ Quiet /\ ~ghost.hurt =>
    /\ \A p \in 1..N : Len(ghost.exe[p]) = K
    /\ \A j \in 1..Len(ghost.got) : ghost.got[j].k \in {"ok", "unit", "handle"}
\* A call without faults is not impaired by those of earlier calls.
Recovers == Finished /\ Quiet /\ ~ghost.now =>
    \A j \in 1..Len(ghost.got) : ghost.got[j].k \in {"ok", "unit", "handle"}
\* Success of a write means that the motor has the value.
Written == Finished /\ Now.op = "write" /\ Now.id # BROADCAST /\ Ok1(ghost.got[1]) => reg[1] = K
Held    == Finished /\ Now.op = "reg_write" /\ Ok1(ghost.got[1]) => held[2] = K
\* Success of a read means that this is the value.
ReadBack == Finished /\ Now.op = "read" /\ Ok1(ghost.got[1]) => ghost.got[1].data = <<reg[Now.id]>>
SyncBack == Finished /\ Now.op = "sync_read" =>
    \A j \in 1..Len(ghost.got) : Ok1(ghost.got[j]) => ghost.got[j].data = <<reg[ghost.got[j].id]>>
\* ... one result per motor, in the order asked for.
InOrder == Finished /\ Now.op = "sync_read" =>
    /\ Len(ghost.got) = 4                 \* the handle, two results, the end
    /\ \A j \in {2, 3} : Ok1(ghost.got[j]) => ghost.got[j].id = Now.ids[j - 1]
\* Every call comes to an end.
Ends == [](cl.stage # "idle" => <>(cl.stage = "idle"))

Emit == Emitting /\ AtEnd =>
    PrintT("SCENARIO " \o ToJson([cfg |-> [role |-> "bus", devices |-> Ids, rcap |-> 64, wcap |-> 64, baud |-> 57600,
                                           seed |-> 1, rude |-> 0, faults |-> hist.faults],
                                  ops |-> calls]))
=============================================================================
