------------------------------- MODULE Crc32c --------------------------------
(* CRC-32C (Castagnoli). A 32-bit register is a pair <<high, low>> of 16-bit   *)
(* halves. Two definitions: bit by bit, and with a table of the 256 byte steps. *)
EXTENDS Naturals, Sequences, Bitwise, TLC
LOCAL INSTANCE SequencesExt

LOCAL X(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Poly == <<33526, 15224>>                       \* 0x82F63B78: the reflected 0x1EDC6F41
Ones == <<65535, 65535>>
Shift1(a) == <<a[1] \div 2, (a[2] \div 2) + (a[1] % 2) * 32768>>
\* one bit (least significant first) enters the register
Bit(a, bit) == IF (a[2] % 2) # bit THEN X(Shift1(a), Poly) ELSE Shift1(a)
Bits == [b \in 0..255 |-> <<b % 2, (b \div 2) % 2, (b \div 4) % 2, (b \div 8) % 2,
                            (b \div 16) % 2, (b \div 32) % 2, (b \div 64) % 2, (b \div 128) % 2>>]
ByteBits(a, b) == FoldLeft(Bit, a, Bits[b])
Table == TLCEval([b \in 0..255 |-> ByteBits(<<0, 0>>, b)])
Byte(a, b) == LET s == <<a[1] \div 256, (a[2] \div 256) + (a[1] % 256) * 256>>
              IN X(s, Table[(a[2] % 256) ^^ b])

Run(a, bytes) == FoldLeft(Byte, a, bytes)
BitRun(a, bytes) == FoldLeft(ByteBits, a, bytes)
Final(a) == LET c == X(a, Ones) IN <<c[1] \div 256, c[1] % 256, c[2] \div 256, c[2] % 256>>
Crc(bytes) == Final(TLCEval(Run(Ones, bytes)))
=============================================================================
