------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* What errors say.  An error that is passed on as an error of another     *)
(* type keeps its kind and its values; its text names the values; and the  *)
(* public check functions report an error exactly if there is one.         *)
(* Numbers found in a text are given both as read in decimal and in hex.   *)
(***************************************************************************)
EXTENDS Protocol

IsErrors(c) == c.op \in {"conv", "fail", "row", "chk", "prefix"}

\* The name of the kind in the type an error has become part of.
KindIn(e, to) == IF e = "BufferTooSmall" /\ to \in {"read", "read.transfer"} THEN "BufferFull" ELSE e

Unique(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

\* Two values compared by a check function: <<>> or what the error holds.
Compared(what, a, b) ==
    CASE what \in {"id", "ins"} -> IF a = b THEN <<>> ELSE <<a, b>>
      [] what = "idb"           -> IF a = b \/ b = BROADCAST THEN <<>> ELSE <<a, b>>
      [] what = "motor"         -> IF b % 128 = 0 THEN <<>> ELSE <<b, b % 128, IF b >= 128 THEN 1 ELSE 0>>

Counted(what, a, b) ==
    CASE what = "exact"  -> IF a = b THEN Unit ELSE EParams(a, b, "exact")
      [] what = "max"    -> IF a <= b THEN Unit ELSE EParams(a, b, "max")
      [] what = "min"    -> IF a >= b THEN Unit ELSE EParams(a, b, "min")
      [] what = "buffer" -> IF a <= b THEN Unit ELSE EBufTooSmall(a, b)

\* A text must not mix up the values: where it uses one of these words, the value
\* that the word stands for must be next to it.
Named(c, word) == IF word \in {"got", "need", "claims"} THEN c.a ELSE c.b
NotMixedUp(c, r) == \A i \in 1..Len(r.named) : Named(c, r.named[i].word) \in ToSet(r.named[i].nums)

SaysOk(c, r) ==
    CASE c.op = "conv" ->
            /\ r.k = "conv"
            /\ r.r = Err(KindIn(c.e, c.to), c.a, c.b, c.x)
            /\ LET said == ToSet(r.nums) IN
               /\ c.a \in said \/ (c.e = "MotorError" /\ c.a % 128 \in said)
               /\ c.b # -1 /\ c.e # "MotorError" => c.b \in said /\ NotMixedUp(c, r)
      [] c.op = "fail" ->        \* discard, write, read, and the same as transfer errors
            /\ r.k = "fail"
            /\ Unique(SubSeq(r.texts, 1, 3)) /\ Unique(SubSeq(r.texts, 4, 6))
            /\ \A i \in 1..6 : c.code \in ToSet(r.nums[i])
            /\ r.errs = << EDiscard(c.code), EWrite(c.code), EIo(c.code),
                           EDiscard(c.code), EWrite(c.code), EIo(c.code) >>
      [] c.op = "row" -> r.k = "row" /\ r.row = [j \in 1..256 |-> Compared(c.what, c.a, j - 1)]
      [] c.op = "chk" -> r = Counted(c.what, c.a, c.b)
      [] c.op = "prefix" ->
            IF c.actual = c.expected THEN r = Unit
            ELSE /\ r.k = "prefix"
                 /\ r.actual = SubSeq(c.actual, 1, 4) /\ r.expected = c.expected
                 /\ ToSet(r.actual) \cup ToSet(r.expected) \subseteq ToSet(r.nums)
=============================================================================
