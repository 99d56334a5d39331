-------------------------------- MODULE Port --------------------------------
(***************************************************************************)
(* A real serial port as the library expects it: a queue of bytes that     *)
(* arrive in order, and calls that take time.  All times in microseconds.  *)
(*                                                                         *)
(* The calls are given by the set of outcomes they may have.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* Room for the granularity of the operating system's timers (a wait is given
\* in whole milliseconds), and for a busy machine.
EARLY   == 1000
AT_ONCE == 20000
LATE    == 250000

Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Sent(xs) == Cat([i \in 1..Len(xs) |-> xs[i].b])
\* Those that may have arrived by time t, and those that certainly have.
MayHave(xs, t)  == Sent(SelectSeq(xs, LAMBDA x : x.w0 <= t))
MustHave(xs, t) == Sent(SelectSeq(xs, LAMBDA x : x.w1 + LATE <= t))

\* A read from r0 to r1, with deadline d and room for n bytes, while `q` was
\* waiting and `xs` arrived: may it return the bytes b?
ReadMayGet(q, xs, n, r0, r1, d, b) ==
    /\ d >= r0 - EARLY                               \* the deadline has not passed before
    /\ Len(b) >= 1 /\ Len(b) <= n
    /\ IsPrefix(b, q \o MayHave(xs, r1))
    /\ r1 <= (IF d > r0 THEN d ELSE r0) + LATE       \* at the deadline at the latest
    /\ q # <<>> => r1 - r0 <= LATE                   \* at once if there are bytes
    /\ q = <<>> => r1 <= Head(xs).w1 + LATE

\* May it time out?
ReadMayTimeOut(q, xs, r0, r1, d) ==
    IF d < r0 THEN r1 - r0 <= AT_ONCE
    ELSE /\ r1 >= d - EARLY
         /\ r1 <= d + LATE
         /\ q = <<>> \/ d < r0 + EARLY
         /\ MustHave(xs, d) = <<>>
=============================================================================
