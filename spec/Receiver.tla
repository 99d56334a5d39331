------------------------------ MODULE Receiver ------------------------------
(***************************************************************************)
(* Reassembly of packets from a byte stream into a receive buffer of a     *)
(* fixed capacity.  Scan says what the bytes received so far amount to:    *)
(*                                                                         *)
(*   need   nothing yet, more bytes are needed                             *)
(*   pkt    an intact packet (id, ins, par: unstuffed parameters)          *)
(*   noerr  an intact status packet without an error byte                  *)
(*   crc    a complete message whose checksum is wrong                     *)
(*   full   a header announcing more than the buffer can hold              *)
(*   short  a header announcing less than a packet can have                *)
(*                                                                         *)
(* and which bytes remain once that has been reported.  Of a header whose   *)
(* length can not be right only the prefix goes: it may have been cut off, *)
(* and then a good packet starts within the seven bytes.                   *)
(***************************************************************************)
EXTENDS Wire

\* Number of leading bytes that can not be (part of) a packet: everything
\* before the first place where a header starts, possibly cut off by the end.
HeaderAt(s, i) == \A k \in 1..4 : i + k <= Len(s) => s[i + k] = HEADER[k]
GarbageLen(s)  == CHOOSE i \in 0..Len(s) :
                     /\ HeaderAt(s, i)
                     /\ \A j \in 0..(i - 1) : ~HeaderAt(s, j)

Drop(s, n) == SubSeq(s, n + 1, Len(s))

Scan(rx, cap) ==
    IF cap < 10 THEN [k |-> "full", req |-> 10, tot |-> cap, rest |-> rx]
    ELSE
    LET r == Drop(rx, GarbageLen(rx)) IN
    IF Len(r) <= 7 THEN [k |-> "need", rest |-> r]
    ELSE
    LET len == U16(r[6], r[7])
        end == 7 + len
    IN
    IF len < 3 THEN [k |-> "short", len |-> len, rest |-> Drop(r, 4)]
    ELSE IF end > cap THEN [k |-> "full", req |-> end, tot |-> cap, rest |-> Drop(r, 4)]
    ELSE IF Len(r) < end THEN [k |-> "need", rest |-> r]
    ELSE
    LET sum  == U16(r[end - 1], r[end])
        calc == Crc(SubSeq(r, 1, end - 2))
        body == Unstuff(SubSeq(r, 8, end - 2))
        rest == Drop(r, end)
    IN
    IF sum # calc THEN [k |-> "crc", msg |-> sum, comp |-> calc, rest |-> rest]
    ELSE IF body[1] = STATUS /\ Len(body) < 2 THEN [k |-> "noerr", rest |-> rest]
    ELSE [k |-> "pkt", id |-> r[5], ins |-> body[1], par |-> Tail(body), rest |-> rest]

\* Everything a complete stream amounts to, when read to the end at once.
RECURSIVE ParseAll(_, _)
ParseAll(s, cap) ==
    LET o == Scan(s, cap) IN
    IF o.k = "need" \/ cap < 10 THEN <<>>
    ELSE <<[x \in DOMAIN o \ {"rest"} |-> o[x]]>> \o ParseAll(o.rest, cap)

=============================================================================
