------------------------------ MODULE Sha512Test ------------------------------
(* FIPS 180-4 examples and lengths around the block boundary.                    *)
EXTENDS Sha512
Abc == <<97, 98, 99>>
Count(n) == [i \in 1..n |-> i - 1]
ASSUME Sha512(Abc) = 
     <<221, 175, 53, 161, 147, 97, 122, 186, 204, 65, 115, 73, 174, 32, 65, 49, 18, 230, 250, 78, 137, 169, 126, 162,
     10, 158, 238, 230, 75, 85, 211, 154, 33, 146, 153, 42, 39, 79, 193, 168, 54, 186, 60, 35, 163, 254, 235, 189,
     69, 77, 68, 35, 100, 60, 232, 14, 42, 154, 201, 79, 165, 76, 164, 159>>
ASSUME Sha384(Abc) = 
     <<203, 0, 117, 63, 69, 163, 94, 139, 181, 160, 61, 105, 154, 198, 80, 7, 39, 44, 50, 171, 14, 222, 209, 99,
     26, 139, 96, 90, 67, 255, 91, 237, 128, 134, 7, 43, 161, 231, 204, 35, 88, 186, 236, 161, 52, 200, 37, 167>>
ASSUME Sha512(Count(0)) = 
     <<207, 131, 225, 53, 126, 239, 184, 189, 241, 84, 40, 80, 214, 109, 128, 7, 214, 32, 228, 5, 11, 87, 21, 220,
     131, 244, 169, 33, 211, 108, 233, 206, 71, 208, 209, 60, 93, 133, 242, 176, 255, 131, 24, 210, 135, 126, 236, 47,
     99, 185, 49, 189, 71, 65, 122, 129, 165, 56, 50, 122, 249, 39, 218, 62>>
ASSUME Sha384(Count(0)) = 
     <<56, 176, 96, 167, 81, 172, 150, 56, 76, 217, 50, 126, 177, 177, 227, 106, 33, 253, 183, 17, 20, 190, 7, 67,
     76, 12, 199, 191, 99, 246, 225, 218, 39, 78, 222, 191, 231, 111, 101, 251, 213, 26, 210, 241, 72, 152, 185, 91>>
ASSUME Sha512(Count(111)) = 
     <<161, 161, 17, 68, 155, 25, 141, 155, 31, 83, 139, 173, 127, 63, 193, 2, 43, 58, 91, 26, 94, 144, 160, 188,
     134, 13, 232, 81, 39, 70, 203, 195, 21, 153, 230, 200, 52, 222, 58, 50, 53, 50, 122, 240, 181, 31, 245, 123,
     247, 172, 241, 151, 74, 115, 1, 77, 156, 57, 83, 129, 46, 220, 124, 141>>
ASSUME Sha384(Count(111)) = 
     <<245, 249, 254, 17, 13, 128, 157, 52, 2, 157, 226, 98, 160, 27, 32, 131, 86, 202, 236, 110, 5, 76, 127, 146,
     107, 37, 145, 246, 201, 120, 5, 121, 212, 181, 159, 85, 120, 198, 245, 49, 168, 79, 21, 138, 51, 102, 12, 239>>
ASSUME Sha512(Count(112)) = 
     <<197, 251, 215, 49, 209, 157, 42, 225, 24, 15, 0, 27, 231, 44, 44, 26, 171, 161, 215, 176, 148, 179, 116, 136,
     128, 226, 69, 147, 184, 225, 23, 167, 80, 225, 28, 27, 216, 103, 204, 47, 150, 218, 206, 140, 139, 116, 171, 210,
     213, 196, 242, 54, 190, 68, 78, 119, 211, 13, 25, 22, 23, 64, 112, 185>>
ASSUME Sha384(Count(112)) = 
     <<51, 186, 8, 14, 192, 204, 179, 120, 228, 233, 95, 237, 59, 38, 194, 58, 161, 162, 128, 71, 110, 0, 117, 25,
     238, 71, 246, 12, 217, 197, 200, 166, 93, 98, 114, 89, 169, 170, 47, 211, 60, 160, 109, 60, 20, 238, 85, 72>>
ASSUME Sha512(Count(128)) = 
     <<29, 255, 213, 227, 173, 183, 29, 69, 210, 36, 89, 57, 102, 85, 33, 174, 0, 26, 49, 122, 3, 114, 10, 69,
     115, 43, 161, 144, 12, 163, 184, 53, 31, 197, 201, 180, 202, 81, 62, 186, 111, 128, 188, 123, 29, 31, 218, 212,
     171, 209, 52, 145, 203, 130, 77, 97, 176, 141, 140, 14, 21, 97, 179, 247>>
ASSUME Sha384(Count(128)) = 
     <<202, 35, 133, 119, 51, 25, 18, 69, 52, 17, 26, 54, 208, 88, 31, 195, 240, 8, 21, 233, 7, 3, 75, 144,
     207, 249, 195, 168, 97, 225, 38, 167, 65, 213, 223, 207, 246, 90, 65, 123, 109, 114, 150, 134, 58, 192, 236, 23>>
ASSUME Sha512(Count(200)) = 
     <<152, 96, 88, 233, 137, 94, 44, 42, 184, 249, 232, 203, 223, 128, 29, 177, 42, 68, 132, 42, 86, 169, 29, 90,
     78, 135, 177, 252, 152, 178, 147, 114, 44, 70, 100, 20, 46, 66, 195, 197, 81, 255, 137, 134, 70, 38, 140, 217,
     43, 132, 237, 35, 11, 140, 148, 190, 215, 121, 141, 79, 39, 205, 116, 101>>
ASSUME Sha384(Count(200)) = 
     <<126, 164, 187, 37, 52, 198, 112, 54, 244, 157, 231, 190, 181, 254, 138, 36, 120, 223, 4, 255, 63, 239, 64, 169,
     205, 73, 35, 153, 154, 89, 14, 153, 18, 223, 18, 151, 33, 124, 225, 160, 33, 170, 47, 177, 1, 52, 152, 184>>
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
