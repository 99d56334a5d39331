------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Values as bytes.  A value is given by its little-endian bytes, so a     *)
(* value that is encoded exactly comes out as the bytes it is given by.    *)
(***************************************************************************)
EXTENDS Errors, TLC

TypeSize == [ u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, u128 |-> 16,
              i8 |-> 1, i16 |-> 2, i32 |-> 4, i64 |-> 8, i128 |-> 16,
              u8x0 |-> 0, u8x1 |-> 1, u8x3 |-> 3, u8x7 |-> 7, u16x2 |-> 4, i16x3 |-> 6,
              u32x2 |-> 8, i32x4 |-> 16, u64x2 |-> 16, u16x2x3 |-> 12, u8x2x2x2 |-> 8,
              i8x5 |-> 5, u8x100 |-> 100 ]
\* Numbers of elements of the arrays of tracked values.
TrackSize == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("5" :> 5)
             @@ ("2x2" :> 4) @@ ("3x2" :> 6)

IsCodec(c) == c.op \in {"size", "enc", "dec", "track", "crc"}

CodecResults(c) ==
    CASE c.op = "size" -> {Num(TypeSize[c.ty])}
      [] c.op = "crc"  -> {Num(FoldLeft(CrcStep, c.init, c.data))}
      [] c.op = "enc"  -> LET n == TypeSize[c.ty] IN
                          IF c.room >= n
                          THEN {[k |-> "enc", buf |-> c.data \o [i \in 1..(c.room - n) |-> c.fill]]}
                          ELSE {[k |-> "encerr", a |-> n, b |-> c.room, kept |-> x] : x \in BOOLEAN}
      [] c.op = "dec"  -> LET n == TypeSize[c.ty] IN
                          IF Len(c.data) = n THEN {[k |-> "val", data |-> c.data]}
                          ELSE {EParams(Len(c.data), n, "exact")}
      [] c.op = "track" -> {}

\* Decoding an array of values that know when they are made and dropped.
\* Decoding the element 255 fails, decoding 254 panics.
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
TrackOk(c, r) ==
    /\ r.k = "track"
    /\ r.dropped = r.made
    /\ IF Len(c.data) # TrackSize[c.ty]
       THEN r.how = "err" /\ r.early = r.made
       ELSE LET bad == {j \in 1..Len(c.data) : c.data[j] >= 254} IN
            IF bad = {}
            THEN r.how = "ok" /\ r.vals = c.data /\ r.early = <<>> /\ r.made = Sorted(c.data)
            ELSE LET j == Least(bad) IN
                 /\ r.how = (IF c.data[j] = 255 THEN "err" ELSE "panic")
                 /\ r.made = Sorted(SubSeq(c.data, 1, j - 1))
                 /\ r.early = r.made
=============================================================================
