------------------------------ MODULE HkdfTest -------------------------------
(* RFC 5869, test cases 1 and 3, and case 1 with the longer hashes.              *)
EXTENDS Hkdf
Ikm == [i \in 1..22 |-> 11]
Okm1 == <<60, 178, 95, 37, 250, 172, 213, 122, 144, 67, 79, 100, 208, 54, 47, 42, 45, 45, 10, 144, 207, 26, 90, 76, 93, 176, 45, 86, 236, 196, 197, 191,
          52, 0, 114, 8, 213, 184, 135, 24, 88, 101>>
Okm3 == <<141, 164, 231, 117, 165, 99, 193, 143, 113, 95, 128, 42, 6, 60, 90, 49, 184, 161, 31, 92, 94, 225, 135, 158, 195, 69, 78, 95, 60, 115, 141, 45,
          157, 32, 19, 149, 250, 164, 182, 26, 150, 200>>
ASSUME Hkdf([i \in 1..13 |-> i - 1], Ikm, [i \in 1..10 |-> 239 + i], 42) = Okm1
ASSUME Hkdf(<<>>, Ikm, <<>>, 42) = Okm3
ASSUME HkdfOf(384, [i \in 1..13 |-> i - 1], Ikm, [i \in 1..10 |-> 239 + i], 42) =
    <<155, 80, 151, 168, 96, 56, 184, 5, 48, 144, 118, 164, 75, 58, 159, 56, 6, 62, 37, 181, 22, 220, 191, 54, 159, 57, 76, 250, 180, 54, 133, 247, 72, 182, 69, 119, 99, 228, 240, 32, 79, 197>>
ASSUME HkdfOf(512, [i \in 1..13 |-> i - 1], Ikm, [i \in 1..10 |-> 239 + i], 42) =
    <<131, 35, 144, 8, 108, 218, 113, 251, 71, 98, 91, 181, 206, 177, 104, 228, 200, 226, 106, 26, 22, 237, 52, 217, 252, 127, 233, 44, 20, 129, 87, 147, 56, 218, 54, 44, 184, 217, 249, 37, 215, 203>>
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
