-------------------------------- MODULE MCRx --------------------------------
(***************************************************************************)
(* Reassembly, for every stream of a few pieces (good and bad packets,     *)
(* garbage, cut off packets, ...) and every way of reading it: each read   *)
(* may return any number of bytes that fits into the rest of the buffer.   *)
(***************************************************************************)
EXTENDS Receiver, TLC, Json

CONSTANTS Cap, Pieces, Emitting

P1    == StatusFrame(1, 0, <<7>>)
P2    == StatusFrame(2, 129, <<255, 255, 253>>)
PI    == Frame(1, PING, <<>>)
PFull == StatusFrame(3, 0, [i \in 1..(Cap - 11) |-> i])        \* fills the buffer
\* [b: the bytes, p: what they are worth on their own, open: may swallow what follows]
Tok(b, p, open) == [b |-> b, p |-> p, open |-> open]
Pkt(f) == LET o == Scan(f, Cap) IN <<[x \in DOMAIN o \ {"rest"} |-> o[x]]>>
Tokens == {
    Tok(P1, Pkt(P1), FALSE), Tok(P2, Pkt(P2), FALSE), Tok(PI, Pkt(PI), FALSE), Tok(PFull, Pkt(PFull), FALSE),
    Tok(<<7>>, <<>>, FALSE),
    Tok(<<255, 255, 253, 1, 9>>, <<>>, FALSE),
    Tok(<<255, 255>>, <<>>, FALSE),                          \* can not be the start of a header ...
    Tok(<<255, 255, 255>>, <<>>, FALSE),                     \* ... that follows
    Tok(<<255, 255, 253>>, <<>>, FALSE),
    Tok(HEADER, <<>>, TRUE),
    Tok(SubSeq(P1, 1, 5), <<>>, TRUE),
    Tok(SubSeq(P1, 1, 6), <<>>, TRUE),
    Tok(SubSeq(P1, 1, 9), <<>>, TRUE),
    Tok([P1 EXCEPT ![10] = 8], Pkt([P1 EXCEPT ![10] = 8]), FALSE),
    Tok([P1 EXCEPT ![12] = 256 - @], Pkt([P1 EXCEPT ![12] = 256 - @]), FALSE),
    Tok(HEADER \o <<1>> \o LE16(Cap) \o <<1>>, Pkt(HEADER \o <<1>> \o LE16(Cap) \o <<1>>), FALSE),
    Tok(HEADER \o <<1>> \o LE16(2) \o <<1>>, Pkt(HEADER \o <<1>> \o LE16(2) \o <<1>>), FALSE),
    Tok(Frame(1, STATUS, <<>>), Pkt(Frame(1, STATUS, <<>>)), FALSE) }

VARIABLES toks, stream, pos, rx, got
vars == <<toks, stream, pos, rx, got>>

Sum(ss) == FoldLeft(LAMBDA a, t : a \o t.b, <<>>, ss)
Init == /\ \E n \in 1..Pieces : toks \in [1..n -> Tokens]
        /\ stream = Sum(toks)
        /\ pos = 0 /\ rx = <<>> /\ got = <<>>

Out  == Scan(rx, Cap)
Report == /\ Out.k # "need"
          /\ rx' = Out.rest
          /\ got' = Append(got, [x \in DOMAIN Out \ {"rest"} |-> Out[x]])
          /\ UNCHANGED <<toks, stream, pos>>
Read == /\ Out.k = "need"
        /\ \E n \in 1..(Cap - Len(Out.rest)) :
              /\ pos + n <= Len(stream)
              /\ rx' = Out.rest \o SubSeq(stream, pos + 1, pos + n)
              /\ pos' = pos + n
        /\ UNCHANGED <<toks, stream, got>>
Next == Report \/ Read
Spec == Init /\ [][Next]_vars

\* There is always room to read into.
Room == Out.k = "need" => Len(Out.rest) < Cap
\* What is reported does not depend on how the bytes came in ...
Whole == ParseAll(stream, Cap)
SoFar == IsPrefix(got, Whole)
Done  == pos = Len(stream) /\ Out.k = "need"
Agree == Done => got = Whole
\* ... and nothing intact is lost, or made up, whatever surrounds it.
Worth(ss) == FoldLeft(LAMBDA a, t : a \o t.p, <<>>, ss)
Nothing == Done /\ (\A i \in 1..Len(toks) : ~toks[i].open) => got = Worth(toks)
\* The packet after a header that was cut off is received too (the length is then
\* made of the packet's first bytes, which is more than fits any but a huge buffer).
Cut(t)    == Len(t.b) \in 4..6 /\ SubSeq(t.b, 1, 4) = HEADER
Intact(o) == o.k = "pkt"
Kept == Done /\ (\A i \in 1..Len(toks) : toks[i].open => Cut(toks[i]))
        => SelectSeq(got, Intact) = SelectSeq(Worth(toks), Intact)
\* A piece that is cut off costs at most as many bytes as it announces.
Sound == \A i \in 1..Len(got) : got[i].k = "pkt" =>
            \E j \in 1..Len(toks) : toks[j].p # <<>> /\ toks[j].p[1] = got[i]

\* Scenarios for the real code: the client and the device read it all.
Times(k, op) == [i \in 1..k |-> op]
Emit == Emitting /\ pos = 0 /\ got = <<>> =>
    LET k == Len(Whole) + 1
        push == [op |-> "$push", dt |-> 0, b |-> stream]
    IN  /\ PrintT("SCENARIO " \o ToJson([cfg |-> [role |-> "client", rcap |-> Cap],
             ops |-> <<push>> \o Times(k, [op |-> "raw_read_t", timeout |-> <<0, 1000000>>])]))
        /\ PrintT("SCENARIO " \o ToJson([cfg |-> [role |-> "device", rcap |-> Cap],
             ops |-> <<push>> \o Times(k, [op |-> "dev_read", via |-> "raw", timeout |-> <<0, 1000000>>])]))
=============================================================================
