------------------------------ MODULE StuffPipe ------------------------------
(***************************************************************************)
(* Byte stuffing as a pipe: a sender stuffs byte after byte, a receiver    *)
(* unstuffs what comes out.  Both only remember how much of FF FF FD they  *)
(* have just seen (Wire!StuffStep, Wire!UnstuffStep), so the pipe has few  *)
(* states, and what holds in all of them holds for bodies of every length  *)
(* over all 256 bytes.                                                     *)
(*                                                                         *)
(* MCStuff checks for short bodies that the pipe is what Stuff and Unstuff *)
(* do.  The sender has 3 states; 2 bytes reach each of them and 2 bytes     *)
(* tell them apart.  So all bodies up to length 6 (7), run on the real     *)
(* code, find any difference of an implementation that remembers up to 1   *)
(* (2) states more (the W method).                                         *)
(***************************************************************************)
EXTENDS Wire

VARIABLES e,      \* what the sender remembers
          d,      \* what the receiver remembers
          h,      \* how much of a header the line shows at its end
          p,      \* how much of FF FF FD FD the line shows at its end
          same,   \* the receiver got each byte that was sent, and nothing else
          ok      \* FF FF FD was always followed by FD
vars == <<e, d, h, p, same, ok>>

\* The longest suffix of what matched so far, and b, that starts a pattern.
Longest(pat, n, b) ==
    LET s == SubSeq(pat, 1, n) \o <<b>>
    IN  CHOOSE k \in 0..Len(pat) :
            /\ k <= Len(s) /\ SubSeq(s, Len(s) - k + 1, Len(s)) = SubSeq(pat, 1, k)
            /\ \A j \in (k + 1)..Len(pat) : j <= Len(s) => SubSeq(s, Len(s) - j + 1, Len(s)) # SubSeq(pat, 1, j)

\* A byte on the line.
Line(m, b) == [h |-> IF m.h = 4 THEN 4 ELSE Longest(HEADER, m.h, b),
               p |-> Longest(PATTERN, IF m.p = 3 THEN 0 ELSE m.p, b),
               ok |-> m.ok /\ (m.p = 3 => b = 253)]

Init == e = 0 /\ d = 0 /\ h = 0 /\ p = 0 /\ same = TRUE /\ ok = TRUE
Send(b) ==
    LET s == StuffStep([out |-> <<>>, q |-> e], b)
        u == FoldLeft(UnstuffStep, [out |-> <<>>, q |-> d], s.out)
        l == FoldLeft(Line, [h |-> h, p |-> p, ok |-> ok], s.out)
    IN  /\ e' = s.q /\ d' = u.q
        /\ same' = (same /\ u.out = <<b>>)
        /\ h' = l.h /\ p' = l.p /\ ok' = l.ok
Next == \E b \in 0..255 : Send(b)
Spec == Init /\ [][Next]_vars

Faithful     == same
NeverAHeader == h < 4
\* A body never ends in FF FF FD, so that FD is not asked for from what follows it.
Rule         == ok /\ p < 3
=============================================================================
