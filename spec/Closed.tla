------------------------------- MODULE Closed -------------------------------
(***************************************************************************)
(* The library (Dxl) together with an environment: a program that calls    *)
(* operations, motors that answer well, badly, late or not at all, and a   *)
(* port that fails at times.  The environment chooses; everything else     *)
(* follows, in virtual time.                                               *)
(*                                                                         *)
(* It serves two purposes.  The properties below are checked for all those *)
(* behaviours by TLC.  And every behaviour is, at its end, printed as a    *)
(* scenario for the real code, the recording of which must conform to Dxl. *)
(*                                                                         *)
(*   prog   what the program may do next: calls, steps of an iterator      *)
(*   q      bytes on their way to the port: <<time of arrival, bytes>>     *)
(*   env    what the environment chose for the current call                *)
(*   hist   the choices so far, as a scenario                              *)
(*   clean  nothing sent in reply to an earlier request was still under    *)
(*          way when the input was discarded                               *)
(*   since, waits   the call: its beginning and the number of its waits    *)
(***************************************************************************)
EXTENDS Dxl, Json

CONSTANTS Profile,      \* which calls and environments to consider
          MaxCalls,     \* number of calls
          Narrow,       \* calls after the first: only a few
          Emitting      \* print scenarios

VARIABLES st, q, env, hist, n, clean, lastdl, waits, steps
vars == <<st, q, env, hist, n, clean, lastdl, waits, steps>>

Rcap == 24
Wcap == 24
BAUD == <<0, 57600>>

-----------------------------------------------------------------------------
\* Calls.  The k-th request is about the value k.
B(k, len) == [i \in 1..len |-> k]
Reads(k)  == { [op |-> "ping", id |-> 1],
               [op |-> "read", id |-> 1, addr |-> 132, ty |-> "bytes", count |-> 3],
               [op |-> "read", id |-> 1, addr |-> 255, ty |-> "u16", count |-> 2],
               [op |-> "raw_xfer", id |-> 1, ins |-> 200, data |-> <<255, 255, 253, k>>, expect |-> 3] }
Acks(k)   == { [op |-> "write", id |-> 1, addr |-> 116, ty |-> "u32", data |-> B(k, 4), bcast |-> FALSE],
               [op |-> "reg_write", id |-> 253, addr |-> 65533, ty |-> "bytes", data |-> <<255, 255, 253>>, bcast |-> FALSE],
               [op |-> "reboot", id |-> 1, bcast |-> FALSE] }
Mutes(k)  == { [op |-> "action", id |-> 254, bcast |-> TRUE],
               [op |-> "write", id |-> 254, addr |-> k, ty |-> "u8", data |-> B(k, 1), bcast |-> FALSE],
               [op |-> "sync_write", addr |-> 5, count |-> 2, ty |-> "bytes",
                   items |-> <<[id |-> 1, data |-> B(k, 2)], [id |-> 2, data |-> <<255, 253>>]>>],
               [op |-> "write", id |-> 1, addr |-> k, ty |-> "bytes", data |-> B(0, 20), bcast |-> FALSE],   \* too long
               [op |-> "raw_xfer", id |-> 1, ins |-> 9, data |-> B(k, 4), expect |-> 0, encfail |-> <<70, 7>>] }
Multis(k) == { [op |-> "sync_read", addr |-> k, ty |-> "bytes", count |-> 2, ids |-> <<1, 2>>],
               [op |-> "sync_read", addr |-> k, ty |-> "u16", count |-> 2, ids |-> <<3, 3>>],
               [op |-> "sync_read", addr |-> k, ty |-> "borrow", count |-> 1, ids |-> <<1, 2>>],
               [op |-> "bulk_read", ty |-> "bytes", items |-> <<[id |-> 2, addr |-> k, count |-> 1],
                                                                [id |-> 1, addr |-> 3, count |-> 2]>>] }
Scans(k)  == { [op |-> "scan"] }
Timeout10 == Ms(10)
Listens(k) == { [op |-> "dev_read", via |-> v, timeout |-> Timeout10] : v \in {"ref", "raw"} }
Answers(k) == { [op |-> "dev_status", via |-> "full", id |-> 1, err |-> 129, data |-> <<k, 255, 255, 253>>],
                [op |-> "dev_status", via |-> "ok", id |-> 1, err |-> 0, data |-> <<>>] }
RawReads(k) == { [op |-> "raw_read", expect |-> 2], [op |-> "raw_read_t", timeout |-> Timeout10] }

Follow(k) == { [op |-> "read", id |-> 1, addr |-> 132, ty |-> "bytes", count |-> 3],
               [op |-> "raw_read", expect |-> 2] }
Calls(k) ==
    IF Narrow /\ k > 1
    THEN IF Profile = "dev" THEN Listens(k) ELSE Follow(k)
    ELSE CASE Profile = "one"   -> Reads(k) \cup Acks(k) \cup Mutes(k) \cup RawReads(k)
           [] Profile = "multi" -> Multis(k) \cup (IF k > 1 THEN Follow(k) ELSE {})
           [] Profile = "scan"  -> Scans(k) \cup (IF k > 1 THEN Follow(k) ELSE {})
           [] Profile = "dev"   -> Listens(k) \cup Answers(k)

\* What the program may do with an iterator.
Steps(it, k) ==
    {[op |-> "next"], [op |-> "drop"]}
    \cup (IF Narrow THEN {} ELSE {[op |-> "hint"], [op |-> "forget"]}
                                 \cup (IF it.op = "scan" THEN {} ELSE {[op |-> "rem"]}))

-----------------------------------------------------------------------------
\* The environment.  A style is a way to answer one motor's turn: which pieces
\* arrive when.  f is the right answer, t the time that is waited for it.
P(dt, b) == <<dt, b>>
Nanos(t) == t[1] * 1000000000 + t[2]
Bad(f)   == [f EXCEPT ![10] = (@ + 1) % 256]
Drips(f) == [i \in 1..Len(f) |-> P(500000 * i, <<f[i]>>)]

Answer(style, id, par, t) ==
    LET f == StatusFrame(id, 0, par)
        l == Len(f)
    IN
    CASE style = "good"    -> <<P(0, f)>>
      [] style = "none"    -> <<>>
      [] style = "split1"  -> <<P(10, SubSeq(f, 1, 1)), P(1000000, Drop(f, 1))>>
      [] style = "split4"  -> <<P(10, SubSeq(f, 1, 4)), P(1000000, Drop(f, 4))>>
      [] style = "split7"  -> <<P(10, SubSeq(f, 1, 7)), P(1000000, Drop(f, 7))>>
      [] style = "split-2" -> <<P(10, SubSeq(f, 1, l - 2)), P(1000000, Drop(f, l - 2))>>
      [] style = "drip"    -> Drips(f)
      [] style = "noise"   -> <<P(0, <<7, 255, 255>> \o f)>>
      [] style = "storm"   -> <<P(0, B(255, 30)), P(1000, B(253, 30)), P(2000, f)>>
      [] style = "twice"   -> <<P(0, f \o f)>>
      [] style = "alert"   -> <<P(0, StatusFrame(id, 128, par))>>
      [] style = "last"    -> <<P(0, SubSeq(f, 1, l - 1)), P(Nanos(t), <<f[l]>>)>>
      [] style = "late1"   -> <<P(0, SubSeq(f, 1, l - 1)), P(Nanos(t) + 1, <<f[l]>>)>>
      [] style = "torn1"   -> <<P(0, SubSeq(f, 1, 1)), P(Nanos(t) + 1, Drop(f, 1))>>
      [] style = "torn7"   -> <<P(0, SubSeq(f, 1, 7)), P(Nanos(t) + 1, Drop(f, 7))>>
      [] style = "late"    -> <<P(Nanos(t) + 1, f)>>
      [] style = "other"   -> <<P(0, StatusFrame(id + 1, 0, par))>>
      [] style = "error"   -> <<P(0, StatusFrame(id, 3, par))>>
      [] style = "alerr"   -> <<P(0, StatusFrame(id, 132, par))>>
      [] style = "crc"     -> <<P(0, Bad(f))>>
      [] style = "less"    -> <<P(0, StatusFrame(id, 0, IF par = <<>> THEN <<9>> ELSE Tail(par)))>>
      [] style = "more"    -> <<P(0, StatusFrame(id, 0, par \o <<9>>))>>
      [] style = "instr"   -> <<P(0, Frame(id, READ, <<0>> \o par))>>
      [] style = "noerr"   -> <<P(0, Frame(id, STATUS, <<>>))>>
      [] style = "big"     -> <<P(0, HEADER \o <<id>> \o LE16(Rcap) \o <<STATUS, 0>> \o par)>>
      [] style = "small"   -> <<P(0, HEADER \o <<id>> \o LE16(2) \o <<STATUS, 0>> \o par)>>
      [] style = "cut"     -> <<P(0, SubSeq(f, 1, 9))>>
      [] style = "cut+"    -> <<P(0, SubSeq(f, 1, 9) \o f)>>
      [] style = "full"    -> <<P(0, StatusFrame(id, 0, B(0, Rcap - 11)))>>
GoodStyles == {"good", "split1", "split4", "split7", "split-2", "drip", "noise", "storm", "twice", "alert", "last"}
BadStyles  == {"none", "late1", "torn1", "torn7", "late", "other", "error", "alerr", "crc", "less", "more", "instr", "noerr", "big", "small",
               "cut", "cut+", "full"}
FewStyles  == {"good", "none", "crc", "other", "cut", "split-2"}

\* The turns of the motors: whom an operation expects answers from, with what.
Turns(c, k) ==
    CASE c.op = "ping"     -> <<[id |-> 1, par |-> B(k, 3)]>>
      [] c.op = "read"     -> <<[id |-> 1, par |-> B(k, c.count)]>>
      [] c.op = "raw_xfer" -> <<[id |-> 1, par |-> B(k, c.expect)]>>
      [] c.op \in AckOps   -> IF c.id = BROADCAST THEN <<>> ELSE <<[id |-> c.id, par |-> <<>>]>>
      [] c.op = "sync_read" -> MapSeq(c.ids, LAMBDA i : [id |-> i, par |-> B(k, c.count)])
      [] c.op = "bulk_read" -> MapSeq(c.items, LAMBDA x : [id |-> x.id, par |-> B(k, x.count)])
      [] c.op = "scan"     -> <<[id |-> 5, par |-> B(k, 3)], [id |-> 9, par |-> B(k, 3)]>>
      [] c.op \in {"raw_read", "raw_read_t"} -> <<[id |-> 1, par |-> B(k, 2)]>>
      [] OTHER -> <<>>

Timeout(c) == IF c.op = "raw_read_t" THEN c.timeout
              ELSE IF c.op = "scan" THEN ScanTimeout(BAUD)
              ELSE IF c.op = "sync_read" THEN ReplyTimeout(c.count, BAUD)
              ELSE IF c.op = "bulk_read" THEN ReplyTimeout(Head(c.items).count, BAUD)
              ELSE ReplyTimeout(ReplyParams(c), BAUD)

Styles(c, k) == LET m == Len(Turns(c, k)) IN
    IF Narrow /\ k > 1 THEN [1..m -> {"good", "none", "drip"}]
    ELSE IF m >= 2 THEN [1..m -> FewStyles] ELSE [1..m -> GoodStyles \cup BadStyles]

\* Answers come in turns, a millisecond apart.
Script(c, k, styles) ==
    LET ts == Turns(c, k)
        turn(i) == [j \in DOMAIN Answer(styles[i], ts[i].id, ts[i].par, Timeout(c)) |->
                       LET p == Answer(styles[i], ts[i].id, ts[i].par, Timeout(c))[j]
                       IN  P(p[1] + (i - 1) * 2000000, p[2])]
    IN  FoldLeft(LAMBDA a, i : a \o turn(i), <<>>, [i \in 1..Len(ts) |-> i])

\* What a device hears.
Heard(k) == { <<P(0, Frame(1, PING, <<>>))>>, <<>>,
              <<P(0, Frame(1, WRITE, <<1, 0, k, 255, 255, 253>>))>>,
              <<P(0, StatusFrame(2, 0, <<k>>) \o Frame(1, READ, <<k, 0, 2, 0>>))>>,
              <<P(0, StatusFrame(2, 0, <<k>>)), P(9000000, Frame(1, PING, <<>>))>>,
              <<P(0, StatusFrame(2, 0, <<k>>)), P(11000000, Frame(1, PING, <<>>))>>,
              <<P(0, SubSeq(Frame(1, PING, <<>>), 1, 8)), P(9999999, Drop(Frame(1, PING, <<>>), 8))>>,
              Drips(Frame(254, READ, <<k, 0, 2, 0>>)),
              <<P(0, Bad(Frame(1, WRITE, <<1, 0, k>>)) \o Frame(1, PING, <<>>))>>,
              <<P(0, <<255, 255, 7>> \o Frame(254, SYNC_READ, <<1, 0, 2, 0, k, 3>>))>>,
              <<P(0, Frame(1, READ, <<k, 0, 2>>))>>,
              <<P(0, Frame(2, STATUS, <<>>) \o Frame(1, PING, <<>>))>>,
              <<P(0, HEADER \o <<1>> \o LE16(100) \o <<PING>> \o Frame(1, FACTORY_RESET, <<255>>))>> }

\* Accesses that fail: <<which, index within the call, code>>.
Faults3 == { <<"none", 0, 0>>, <<"disc", 0, 11>>, <<"tx", 0, 12>>, <<"tx", 0, 0>>, <<"rd", 0, 13>>, <<"rd", 1, 13>>,
             <<"rd", 1, 0>> }
FaultsFor(c, k, styles) ==
    IF Narrow /\ k > 1 THEN {<<"none", 0, 0>>}
    ELSE IF \A i \in DOMAIN styles : styles[i] \in {"good", "split7"} THEN Faults3 ELSE {<<"none", 0, 0>>}

Env(styles, script, fault) == [styles |-> styles, script |-> script, fault |-> fault, rd |-> 0]
Envs(c, k) ==
    IF c.op = "dev_read"
    THEN {Env(<<>>, s, f) : s \in Heard(k), f \in {<<"none", 0, 0>>, <<"rd", 0, 13>>, <<"rd", 1, 13>>}}
    ELSE UNION {{Env(y, Script(c, k, y), f) : f \in FaultsFor(c, k, y)} : y \in Styles(c, k)}

-----------------------------------------------------------------------------
\* The port.

Insert(qq, p) == SelectSeq(qq, LAMBDA x : TLeq(x[1], p[1])) \o <<p>> \o SelectSeq(qq, LAMBDA x : ~TLeq(x[1], p[1]))
After(t, dt)  == TPlus(t, <<dt \div 1000000000, dt % 1000000000>>)
Deliver(qq, t, script) == FoldLeft(LAMBDA a, p : IF p[2] = <<>> THEN a ELSE Insert(a, <<After(t, p[1]), p[2]>>), qq, script)

\* What a read returns at time t with room for m bytes, and what is left.
RECURSIVE Take(_, _, _, _)
Take(qq, t, m, got) ==
    IF qq = <<>> \/ m = 0 \/ ~TLeq(Head(qq)[1], t) THEN [b |-> got, q |-> qq]
    ELSE LET h == Head(qq)[2] IN
         IF Len(h) <= m THEN Take(Tail(qq), t, m - Len(h), got \o h)
         ELSE [b |-> got \o SubSeq(h, 1, m), q |-> <<<<Head(qq)[1], Drop(h, m)>>>> \o Tail(qq)]

NoEnv == Env(<<>>, <<>>, <<"none", 0, 0>>)
Hist0 == [ops |-> <<>>, replies |-> <<>>, disc |-> 0, tx |-> 0, rd |-> 0, f_disc |-> <<>>, f_tx |-> <<>>, f_rd |-> <<>>]

Init == /\ st = [Start(Rcap, Wcap) EXCEPT !.clk = <<1000, 0>>, !.baud = BAUD]
        /\ q = <<>> /\ env = NoEnv /\ hist = Hist0 /\ n = 0 /\ clean = TRUE
        /\ lastdl = <<0, 0>> /\ waits = 0 /\ steps = 0

\* The deadline of a wait that has begun.
Note(s) == /\ lastdl' = IF s.stage = "recv" THEN s.dl ELSE lastdl
           /\ waits' = IF s.stage = "recv" /\ (st.stage # "recv" \/ s.dl # st.dl) THEN waits + 1 ELSE waits

Tick(s) == st' = s /\ Note(s) /\ steps' = steps + 1

Call ==
    /\ st.stage = "idle" /\ st.it.op = "none" /\ n < MaxCalls
    /\ \E c \in Calls(n + 1) : \E e \in Envs(c, n + 1) :
        /\ n' = n + 1
        /\ env' = e
        /\ LET pushed == IF Sends(c) THEN <<>> ELSE e.script IN
           /\ q' = Deliver(q, st.clk, pushed)
           /\ hist' = [hist EXCEPT !.ops = @ \o MapSeq(pushed, LAMBDA p : [op |-> "$push", dt |-> p[1], b |-> p[2]])
                                           \o <<IF c.op \in {"scan"} \/ MultiRead(c) THEN c @@ [plan |-> <<>>] ELSE c>>]
        /\ st' = Begin(st, c) /\ steps' = 0
        /\ lastdl' = IF Begin(st, c).stage = "recv" THEN Begin(st, c).dl ELSE st.clk
        /\ waits' = IF Begin(st, c).stage = "recv" THEN 1 ELSE 0
    /\ UNCHANGED clean

Iterate ==
    /\ st.stage = "idle" /\ st.it.op # "none" /\ hist.ops # <<>>
    /\ Len(hist.ops[Len(hist.ops)].plan) < 4
    /\ \E c \in Steps(st.it, n) :
        /\ LET s == Begin(st, c) IN
           /\ st' = s /\ steps' = 0
           /\ lastdl' = IF s.stage = "recv" THEN s.dl ELSE st.clk
           /\ waits' = IF s.stage = "recv" THEN 1 ELSE 0
        /\ hist' = IF c.op = "drop" THEN hist ELSE [hist EXCEPT !.ops[Len(hist.ops)].plan = Append(@, c.op)]
    /\ UNCHANGED <<q, env, n, clean>>
\* Enough steps: the iterator is dropped.
Enough ==
    /\ st.stage = "idle" /\ st.it.op # "none"
    /\ Len(hist.ops[Len(hist.ops)].plan) >= 4
    /\ LET s == Begin(st, [op |-> "drop"]) IN
       /\ st' = s /\ steps' = 0
       /\ lastdl' = IF s.stage = "recv" THEN s.dl ELSE st.clk
       /\ waits' = IF s.stage = "recv" THEN 1 ELSE 0
    /\ UNCHANGED <<q, env, n, clean, hist>>

Discard ==
    /\ CanDiscard(st)
    /\ IF env.fault[1] = "disc"
       THEN /\ Tick(DiscardFail(st, env.fault[3]))
            /\ hist' = [hist EXCEPT !.disc = @ + 1, !.f_disc = Append(@, <<hist.disc, env.fault[3]>>)]
            /\ UNCHANGED <<q, clean>>
       ELSE /\ Tick(DiscardOk(st))
            /\ q' = SelectSeq(q, LAMBDA x : ~TLeq(x[1], st.clk))
            /\ clean' = (q' = <<>>)
            /\ hist' = [hist EXCEPT !.disc = @ + 1]
    /\ UNCHANGED <<env, n>>

Transmit ==
    /\ CanTransmit(st, st.msg)
    /\ IF env.fault[1] = "tx"
       THEN /\ Tick(TransmitFail(st, env.fault[3]))
            /\ hist' = [hist EXCEPT !.tx = @ + 1, !.f_tx = Append(@, <<hist.tx, env.fault[3]>>)]
            /\ UNCHANGED q
       ELSE /\ Tick(TransmitOk(st, st.msg))
            /\ q' = Deliver(q, st.clk, env.script)
            /\ hist' = [hist EXCEPT !.tx = @ + 1, !.replies = Append(@, env.script)]
    /\ UNCHANGED <<env, n, clean>>

ReadStep ==
    /\ CanRead(st)
    /\ env' = [env EXCEPT !.rd = @ + 1]
    /\ IF env.fault[1] = "rd" /\ env.fault[2] = env.rd
       THEN LET s == IF env.fault[3] = TIMEOUT /\ TLeq(st.clk, st.dl) THEN [st EXCEPT !.clk = st.dl] ELSE st IN
            /\ Tick(ReadFail(s, env.fault[3]))
            /\ hist' = [hist EXCEPT !.rd = @ + 1, !.f_rd = Append(@, <<hist.rd, env.fault[3]>>)]
            /\ UNCHANGED q
       ELSE
       /\ hist' = [hist EXCEPT !.rd = @ + 1]
       /\ IF q # <<>> /\ (TLeq(Head(q)[1], st.clk) \/ TLeq(Head(q)[1], st.dl))
          THEN LET t == IF TLeq(Head(q)[1], st.clk) THEN st.clk ELSE Head(q)[1]
                   x == Take(q, t, st.rcap - Len(st.rx), <<>>)
               IN  Tick(ReadGot([st EXCEPT !.clk = t], x.b)) /\ q' = x.q
          ELSE LET t == IF TLeq(st.clk, st.dl) THEN st.dl ELSE st.clk
               IN  Tick(ReadFail([st EXCEPT !.clk = t], TIMEOUT)) /\ UNCHANGED q
    /\ UNCHANGED <<n, clean>>

Ret ==
    /\ st.stage = "done"
    /\ st' = Return(st)
    /\ UNCHANGED <<q, env, hist, n, clean, lastdl, waits, steps>>

AtEnd == st.stage = "idle" /\ st.it.op = "none" /\ n = MaxCalls
Stop  == AtEnd /\ UNCHANGED vars

Next == Call \/ Iterate \/ Enough \/ Discard \/ Transmit \/ ReadStep \/ Ret \/ Stop
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Properties of the design.

Done == st.stage = "done"
Good(r) == r.k \in {"ok", "status"}

\* There is always room to read into, and never more than the buffer holds.
Room  == Len(st.rx) <= st.rcap /\ (st.stage = "recv" => Len(st.rx) < st.rcap)
\* Whatever happened, there is a result; and the calls end (with CHECK_DEADLOCK).
Outcome == Done => st.outs # {}
Ends    == steps <= 700
\* A call returns no later than the deadline of the last wait, and only a drain waits more than once.
InTime  == Done => TLeq(st.clk, lastdl) \/ waits = 0
Waits   == st.stage # "idle" => waits <= (IF st.c.op = "drop" THEN IF st.it.op = "scan" THEN MaxMotors ELSE 2 ELSE 1)
\* What is sent is one intact packet, for a reader with any buffer that is large enough.
Sendable == st.stage = "send" =>
    LET o == Scan(st.msg, Len(st.msg))
        m == MessageOf(st.c)
    IN  /\ o.k = "pkt" /\ o.rest = <<>>
        /\ o.id = m.id /\ o.ins = m.ins /\ o.par = m.par
        /\ Len(st.msg) <= st.wcap
\* A result is about this request, not an earlier one (requests of the k-th call are about the value k).
Valued(c) == c.op \in {"ping", "read"} \/ (c.op = "raw_xfer" /\ c.expect > 0) \/ (c.op = "next" /\ st.it.op # "none")
\* (The raw operations accept any number of parameters.)
AnyCount == st.c.op = "raw_xfer" /\ env.styles # <<>> /\ env.styles[1] \in {"less", "more", "full"}
Fresh == Done /\ clean /\ ~AnyCount /\ Valued(st.c) => \A r \in st.outs : Good(r) => \A i \in DOMAIN r.data : r.data[i] = n
\* A proper answer is accepted, whatever happened before.
Sound == env.fault[1] = "none" /\ clean /\ Done /\ Valued(st.c) /\ st.c.op # "next" /\ env.styles # <<>>
         /\ "encfail" \notin DOMAIN st.c
         => IF env.styles[1] \in GoodStyles \/ AnyCount THEN \A r \in st.outs : Good(r)
            ELSE \A r \in st.outs : ~Good(r)
\* Every result of an iterator is about the motor whose turn it is.
Turn == Done /\ st.c.op = "next" /\ "want" \in DOMAIN st.c =>
        \A r \in st.outs : Good(r) => r.id = st.c.want.id /\ Len(r.data) = st.c.want.count
Left == st.it.op \in {"sync_read", "bulk_read"} => Len(st.it.left) <= 2
\* A result is never both an answer and an error.
Either == Done => (\A r \in st.outs : Good(r)) \/ (\A r \in st.outs : ~Good(r))

\* Scenarios for the real code.
Emit == Emitting /\ AtEnd =>
    PrintT("SCENARIO " \o ToJson(
        [cfg |-> [role |-> IF Profile = "dev" THEN "device" ELSE "client", rcap |-> Rcap, wcap |-> Wcap, baud |-> 57600,
                  replies |-> hist.replies, f_disc |-> hist.f_disc, f_tx |-> hist.f_tx, f_rd |-> hist.f_rd],
         ops |-> hist.ops]))
=============================================================================
