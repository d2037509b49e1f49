------------------------------ MODULE CrcStream ------------------------------
(* A checksum computed over a stream that arrives in pieces, and a channel that  *)
(* damages it: the register depends only on the bytes fed so far, and every burst *)
(* of at most 32 bits (here: of W bits) in a message of up to N bytes changes it. *)
EXTENDS Crc32c, FiniteSets
CONSTANTS N, Alphabet, W
VARIABLES fed, reg, whole
Init == fed = <<>> /\ reg = Ones /\ whole = <<>>
Feed(piece) == /\ Len(fed) + Len(piece) <= N
               /\ fed' = fed \o piece
               /\ reg' = Run(reg, piece)              \* goes on from the register of the piece before
               /\ whole' = Append(whole, Len(piece))
Next == \E n \in 0..2 : \E p \in [1..n -> Alphabet] : Len(whole) < N + 1 /\ Feed(p)
Spec == Init /\ [][Next]_<<fed, reg, whole>>
View == <<fed, reg, Len(whole)>>
SplitFree == reg = BitRun(Ones, fed)
\* an error pattern: a byte b and the next one c (a burst within W bits), followed by k zero bytes.
\* The code is linear, so the damaged message has the same checksum iff the pattern's register is zero.
Pattern(b, c, k) == <<b, c>> \o [j \in 1..k |-> 0]
Detects == fed = <<>> => \A b \in 1..255, c \in 0..W : \A k \in {0, 1, N} : Run(<<0, 0>>, Pattern(b, c, k)) # <<0, 0>>
ASSUME Crc(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<227, 6, 146, 131>>      \* "123456789": E3069283
ASSUME Crc(<<>>) = <<0, 0, 0, 0>>
ASSUME Crc([i \in 1..32 |-> 0]) = <<138, 145, 54, 170>>                        \* RFC 3720 B.4
ASSUME Crc([i \in 1..32 |-> 255]) = <<98, 168, 171, 67>>
ASSUME \A b \in 0..255 : Byte(Ones, b) = ByteBits(Ones, b)
=============================================================================
