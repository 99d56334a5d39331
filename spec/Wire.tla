-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The Dynamixel Protocol 2.0 wire format, stated independently of the     *)
(* implementation: CRC from the generator polynomial, byte stuffing as a   *)
(* rule about the pattern FF FF FD, packets as byte sequences.             *)
(*                                                                         *)
(*   FF FF FD 00 | id | len lo, len hi | instruction, parameters | crc     *)
(*                                      `---- byte stuffed ----'           *)
(* len counts everything after itself.  The crc covers everything before.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Bitwise

HEADER    == <<255, 255, 253, 0>>
BROADCAST == 254

\* Instruction IDs.
PING == 1  READ == 2  WRITE == 3  REG_WRITE == 4  DO_ACTION == 5
FACTORY_RESET == 6  REBOOT == 8  CLEAR == 16
SYNC_READ == 130  SYNC_WRITE == 131  BULK_READ == 146  BULK_WRITE == 147
STATUS == 85

LE16(n)     == <<n % 256, (n \div 256) % 256>>
U16(lo, hi) == lo + 256 * hi

-----------------------------------------------------------------------------
\* CRC-16, polynomial 0x8005, initial value 0, most significant bit first.
RECURSIVE CrcBits(_, _)
CrcBits(c, n) == IF n = 0 THEN c
                 ELSE CrcBits(IF c >= 32768 THEN ((c * 2) % 65536) ^^ 32773 ELSE c * 2, n - 1)
CrcTable      == [b \in 0..255 |-> CrcBits(b * 256, 8)]
CrcStep(c, b) == ((c % 256) * 256) ^^ CrcTable[(c \div 256) ^^ b]
Crc(s)        == FoldLeft(CrcStep, 0, s)

-----------------------------------------------------------------------------
\* Byte stuffing.  q is the length of the longest suffix of the bytes seen so
\* far that is a prefix of FF FF FD (3: the whole pattern was just seen).
PatStep(q, b) == IF b = 255 THEN (IF q \in {1, 2} THEN 2 ELSE 1)
                 ELSE IF b = 253 /\ q = 2 THEN 3 ELSE 0

StuffStep(a, b) ==
    LET q == PatStep(a.q, b)
    IN  IF q = 3 THEN [out |-> a.out \o <<b, 253>>, q |-> 0]
                 ELSE [out |-> Append(a.out, b), q |-> q]
StuffAll(s) == FoldLeft(StuffStep, [out |-> <<>>, q |-> 0], s).out

UnstuffStep(a, b) ==
    IF a.q = 3 /\ b = 253 THEN [out |-> a.out, q |-> 0]
                          ELSE [out |-> Append(a.out, b), q |-> PatStep(a.q, b)]
UnstuffAll(s) == FoldLeft(UnstuffStep, [out |-> <<>>, q |-> 0], s).out

\* s contains the pattern p at position i (1-based).
At(s, i, p) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]
Occurs(s, p) == \E i \in 1..Len(s) : At(s, i, p)
\* Nothing to do without the pattern (this spares TLC the copying).
PATTERN == <<255, 255, 253>>
Stuff(s)   == IF Occurs(s, PATTERN) THEN StuffAll(s) ELSE s
Unstuff(s) == IF Occurs(s, PATTERN) THEN UnstuffAll(s) ELSE s
\* The rule of the protocol for packet bodies.
WellStuffed(s) == \A i \in 1..Len(s) : At(s, i, <<255, 255, 253>>) => At(s, i, <<255, 255, 253, 253>>)

-----------------------------------------------------------------------------
\* Whole packets.
Unsealed(id, body) == HEADER \o <<id>> \o LE16(Len(body) + 2) \o body
Seal(s)            == s \o LE16(Crc(s))
Frame(id, ins, params)      == Seal(Unsealed(id, Stuff(<<ins>> \o params)))
StatusFrame(id, err, params) == Frame(id, STATUS, <<err>> \o params)

\* Message sizes including header and checksum.
PlainSize(params)        == 10 + Len(params)
StuffedSize(ins, params) == 9 + Len(Stuff(<<ins>> \o params))

=============================================================================
