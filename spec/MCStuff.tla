------------------------------- MODULE MCStuff -------------------------------
(***************************************************************************)
(* The wire format, exhaustively for short packet bodies.  Stuffing only   *)
(* tells FF, FD and everything else apart (and 00 could make a header), so *)
(* four letters stand for all bytes.                                       *)
(***************************************************************************)
EXTENDS Wire, TLC, Json

CONSTANTS Letters, Longest, Ids, Emitting
VARIABLE s

Init == s = <<>>
Next == Len(s) < Longest /\ \E b \in Letters : s' = Append(s, b)
Spec == Init /\ [][Next]_s

\* The rule a reader is entitled to rely on.
NeverAHeader == ~Occurs(Stuff(s), HEADER)
Rule         == WellStuffed(Stuff(s))
Faithful     == Unstuff(Stuff(s)) = s
\* Only what has to be is stuffed: nothing without the pattern, one byte per pattern.
Patterns     == Cardinality({i \in 1..Len(s) : At(s, i, PATTERN)})
Minimal      == Len(Stuff(s)) = Len(s) + Patterns
\* A whole packet: header only at the start, even across the borders of its
\* fields.  (The checksum is not stuffed, so with it there may be another one.)
OneHeader ==
    \A id \in Ids : LET f == Frame(id, 3, s) IN
        /\ \A i \in 2..(Len(f) - 5) : ~At(f, i, HEADER)
        /\ Len(f) = StuffedSize(3, s)
        /\ U16(f[6], f[7]) = Len(f) - 7
\* A packet with one byte altered is never taken for intact.
Altered(f, i, b) == [f EXCEPT ![i] = b]
Detects ==
    LET f == Frame(1, 3, s) IN
    \A i \in 1..(Len(f) - 2) : \A x \in {1, 2, 128, 255} :
        Seal(SubSeq(Altered(f, i, f[i] ^^ x), 1, Len(f) - 2)) # Altered(f, i, f[i] ^^ x)

\* Scenarios for the real code: send this body, receive it, both as client and as device.
Scenarios ==
    LET par == Tail(s)
        ok  == StatusFrame(1, 0, s)
    IN  { [cfg |-> [role |-> "client", replies |-> <<<<>>, <<<<0, ok>>>>, <<<<0, ok>>>>, <<<<0, StatusFrame(255, 0, <<>>)>>>>>>],
           ops |-> << [op |-> "raw_write", id |-> 253, ins |-> s[1], data |-> par],
                      [op |-> "raw_xfer", id |-> 1, ins |-> 2, data |-> s, expect |-> Len(s)],
                      [op |-> "read", id |-> 1, addr |-> 65533, ty |-> "bytes", count |-> Len(s)],
                      [op |-> "write", id |-> 255, addr |-> 65535, ty |-> "bytes", data |-> s, bcast |-> FALSE] >>],
          [cfg |-> [role |-> "device"],
           ops |-> << [op |-> "$push", dt |-> 0, b |-> Frame(255, s[1], par)],
                      [op |-> "dev_read", via |-> "raw", timeout |-> <<1, 0>>],
                      [op |-> "$push", dt |-> 0, b |-> Frame(1, WRITE, s)],
                      [op |-> "dev_read", via |-> "ref", timeout |-> <<1, 0>>],
                      [op |-> "dev_status", via |-> "full", id |-> 255, err |-> s[1], data |-> par] >>] }
Emit == Emitting /\ s # <<>> => \A x \in Scenarios : PrintT("SCENARIO " \o ToJson(x))
=============================================================================
