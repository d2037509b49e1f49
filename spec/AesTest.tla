------------------------------- MODULE AesTest -------------------------------
(* Known answers: FIPS 197 appendix C, the GCM specification's test case 2, and  *)
(* vectors of OpenSSL for all modes and key sizes.                              *)
EXTENDS Aes
Up(n) == [i \in 1..n |-> i - 1]
Plain197 == [i \in 1..16 |-> 17 * (i - 1)]
ASSUME SBoxRight
ASSUME Block(Expand(Up(16)), Plain197) = <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>
ASSUME Block(Expand(Up(32)), Plain197) = <<142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137>>
Z(n) == [i \in 1..n |-> 0]
ASSUME Gcm(Z(16), Z(12), Z(16), <<>>) = [ct |-> <<3, 136, 218, 206, 96, 182, 163, 146, 243, 40, 194, 185, 113, 178, 254, 120>>,
                                         tag |-> <<171, 110, 71, 212, 44, 236, 19, 189, 245, 58, 103, 178, 18, 87, 189, 223>>]
Vectors == <<
  <<FALSE, <<16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<>>, <<>>, <<>>, <<205, 96, 178, 146, 173, 31, 20, 189, 79, 248, 218, 229, 229, 41, 53, 126>>>>,
  <<FALSE, <<16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29>>, <<>>, <<211, 187, 192, 206, 247>>, <<251, 102, 152, 151, 92, 159, 224, 167, 246, 214, 149, 122, 142, 74, 188, 56>>>>,
  <<FALSE, <<16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84, 89, 94, 99, 104>>, <<211, 187, 192, 206, 247, 116, 115, 95, 118, 91, 119, 39, 166, 19, 67, 23>>, <<224, 49, 237, 63, 24, 96, 86, 5, 79, 155, 171, 226, 255, 248, 113, 96>>>>,
  <<FALSE, <<16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84>>, <<211, 187, 192, 206, 247, 116, 115, 95, 118, 91, 119, 39, 166, 19, 67, 23, 130, 120, 13, 232, 116, 111, 37, 17, 196, 236, 129, 207, 44, 164, 65, 81, 59, 151, 224, 164, 226>>, <<14, 181, 92, 210, 74, 214, 62, 200, 126, 55, 128, 242, 101, 225, 254, 9>>>>,
  <<FALSE, <<16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253, 4, 11, 18, 25, 32, 39, 46, 53, 60, 67, 74, 81, 88, 95, 102, 109, 116, 123, 130, 137, 144, 151, 158, 165, 172, 179, 186>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84, 89, 94, 99, 104, 109, 114, 119, 124, 129, 134, 139, 144, 149, 154, 159, 164, 169>>, <<211, 187, 192, 206, 247, 116, 115, 95, 118, 91, 119, 39, 166, 19, 67, 23, 130, 120, 13, 232, 116, 111, 37, 17, 196, 236, 129, 207, 44, 164, 65, 81, 59, 151, 224, 164, 226, 4, 238, 185, 196, 110, 169, 178, 84, 153, 168, 151, 73, 217, 88, 159, 234, 126, 128, 150, 89, 148, 250, 183, 99, 4, 226, 135>>, <<116, 211, 253, 52, 109, 32, 37, 158, 55, 45, 201, 30, 68, 142, 14, 106>>>>,
  <<TRUE, <<16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<>>, <<>>, <<>>, <<206, 128, 123, 131, 127, 250, 18, 59, 86, 200, 181, 66, 59, 180, 30, 77>>>>,
  <<TRUE, <<16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29>>, <<>>, <<136, 34, 174, 253, 13>>, <<63, 111, 233, 106, 42, 0, 56, 2, 15, 90, 223, 198, 208, 120, 164, 135>>>>,
  <<TRUE, <<16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84, 89, 94, 99, 104>>, <<136, 34, 174, 253, 13, 194, 145, 57, 30, 177, 21, 201, 98, 19, 250, 25>>, <<8, 182, 60, 83, 148, 73, 136, 48, 194, 216, 75, 72, 195, 66, 161, 210>>>>,
  <<TRUE, <<16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84>>, <<136, 34, 174, 253, 13, 194, 145, 57, 30, 177, 21, 201, 98, 19, 250, 25, 117, 229, 194, 7, 54, 6, 11, 34, 105, 73, 229, 38, 54, 134, 28, 73, 10, 38, 203, 10, 26>>, <<71, 162, 2, 164, 246, 145, 160, 218, 81, 152, 154, 45, 157, 54, 16, 251>>>>,
  <<TRUE, <<16, 19, 22, 25, 28, 31, 34, 37, 40, 43, 46, 49, 52, 55, 58, 61>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253, 4, 11, 18, 25, 32, 39, 46, 53, 60, 67, 74, 81, 88, 95, 102, 109, 116, 123, 130, 137, 144, 151, 158, 165, 172, 179, 186>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84, 89, 94, 99, 104, 109, 114, 119, 124, 129, 134, 139, 144, 149, 154, 159, 164, 169>>, <<136, 34, 174, 253, 13, 194, 145, 57, 30, 177, 21, 201, 98, 19, 250, 25, 117, 229, 194, 7, 54, 6, 11, 34, 105, 73, 229, 38, 54, 134, 28, 73, 10, 38, 203, 10, 26, 82, 147, 57, 89, 168, 169, 218, 253, 222, 219, 95, 141, 242, 33, 26, 159, 42, 222, 20, 171, 125, 22, 168, 146, 164, 255, 177>>, <<117, 126, 188, 56, 57, 156, 82, 81, 214, 153, 79, 0, 81, 66, 215, 17>>>>,
  <<FALSE, <<32, 35, 38, 41, 44, 47, 50, 53, 56, 59, 62, 65, 68, 71, 74, 77, 80, 83, 86, 89, 92, 95, 98, 101, 104, 107, 110, 113, 116, 119, 122, 125>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<>>, <<>>, <<>>, <<255, 8, 236, 237, 145, 83, 207, 142, 213, 8, 137, 9, 12, 214, 174, 25>>>>,
  <<FALSE, <<32, 35, 38, 41, 44, 47, 50, 53, 56, 59, 62, 65, 68, 71, 74, 77, 80, 83, 86, 89, 92, 95, 98, 101, 104, 107, 110, 113, 116, 119, 122, 125>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29>>, <<>>, <<110, 38, 97, 169, 21>>, <<196, 97, 181, 20, 46, 245, 245, 178, 225, 230, 98, 245, 25, 161, 88, 92>>>>,
  <<FALSE, <<32, 35, 38, 41, 44, 47, 50, 53, 56, 59, 62, 65, 68, 71, 74, 77, 80, 83, 86, 89, 92, 95, 98, 101, 104, 107, 110, 113, 116, 119, 122, 125>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84, 89, 94, 99, 104>>, <<110, 38, 97, 169, 21, 62, 71, 159, 145, 215, 255, 22, 235, 57, 168, 168>>, <<244, 209, 123, 219, 5, 47, 11, 218, 65, 182, 226, 233, 122, 121, 107, 50>>>>,
  <<FALSE, <<32, 35, 38, 41, 44, 47, 50, 53, 56, 59, 62, 65, 68, 71, 74, 77, 80, 83, 86, 89, 92, 95, 98, 101, 104, 107, 110, 113, 116, 119, 122, 125>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84>>, <<110, 38, 97, 169, 21, 62, 71, 159, 145, 215, 255, 22, 235, 57, 168, 168, 229, 181, 4, 65, 74, 40, 36, 238, 102, 200, 232, 89, 245, 71, 157, 38, 10, 127, 131, 214, 10>>, <<239, 208, 255, 184, 189, 91, 200, 86, 156, 20, 4, 28, 212, 227, 241, 58>>>>,
  <<FALSE, <<32, 35, 38, 41, 44, 47, 50, 53, 56, 59, 62, 65, 68, 71, 74, 77, 80, 83, 86, 89, 92, 95, 98, 101, 104, 107, 110, 113, 116, 119, 122, 125>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253, 4, 11, 18, 25, 32, 39, 46, 53, 60, 67, 74, 81, 88, 95, 102, 109, 116, 123, 130, 137, 144, 151, 158, 165, 172, 179, 186>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84, 89, 94, 99, 104, 109, 114, 119, 124, 129, 134, 139, 144, 149, 154, 159, 164, 169>>, <<110, 38, 97, 169, 21, 62, 71, 159, 145, 215, 255, 22, 235, 57, 168, 168, 229, 181, 4, 65, 74, 40, 36, 238, 102, 200, 232, 89, 245, 71, 157, 38, 10, 127, 131, 214, 10, 167, 30, 68, 46, 1, 19, 14, 24, 41, 162, 213, 142, 219, 107, 255, 47, 230, 196, 133, 194, 62, 122, 162, 73, 15, 21, 110>>, <<145, 168, 231, 82, 195, 19, 53, 210, 171, 106, 173, 226, 50, 89, 26, 107>>>>,
  <<TRUE, <<32, 35, 38, 41, 44, 47, 50, 53, 56, 59, 62, 65, 68, 71, 74, 77, 80, 83, 86, 89, 92, 95, 98, 101, 104, 107, 110, 113, 116, 119, 122, 125>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<>>, <<>>, <<>>, <<95, 116, 254, 245, 77, 140, 210, 187, 82, 158, 111, 114, 235, 187, 71, 48>>>>,
  <<TRUE, <<32, 35, 38, 41, 44, 47, 50, 53, 56, 59, 62, 65, 68, 71, 74, 77, 80, 83, 86, 89, 92, 95, 98, 101, 104, 107, 110, 113, 116, 119, 122, 125>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29>>, <<>>, <<165, 141, 61, 250, 182>>, <<154, 23, 191, 44, 93, 129, 255, 38, 191, 175, 47, 122, 206, 68, 239, 221>>>>,
  <<TRUE, <<32, 35, 38, 41, 44, 47, 50, 53, 56, 59, 62, 65, 68, 71, 74, 77, 80, 83, 86, 89, 92, 95, 98, 101, 104, 107, 110, 113, 116, 119, 122, 125>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84, 89, 94, 99, 104>>, <<165, 141, 61, 250, 182, 88, 98, 90, 102, 205, 56, 6, 80, 129, 171, 83>>, <<206, 131, 145, 43, 210, 128, 232, 44, 154, 203, 82, 39, 41, 96, 196, 126>>>>,
  <<TRUE, <<32, 35, 38, 41, 44, 47, 50, 53, 56, 59, 62, 65, 68, 71, 74, 77, 80, 83, 86, 89, 92, 95, 98, 101, 104, 107, 110, 113, 116, 119, 122, 125>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84>>, <<165, 141, 61, 250, 182, 88, 98, 90, 102, 205, 56, 6, 80, 129, 171, 83, 164, 192, 45, 222, 210, 148, 224, 194, 255, 152, 154, 213, 145, 237, 229, 77, 14, 3, 66, 86, 114>>, <<169, 153, 235, 87, 210, 205, 9, 161, 224, 123, 92, 243, 3, 8, 25, 9>>>>,
  <<TRUE, <<32, 35, 38, 41, 44, 47, 50, 53, 56, 59, 62, 65, 68, 71, 74, 77, 80, 83, 86, 89, 92, 95, 98, 101, 104, 107, 110, 113, 116, 119, 122, 125>>, <<200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211>>, <<1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253, 4, 11, 18, 25, 32, 39, 46, 53, 60, 67, 74, 81, 88, 95, 102, 109, 116, 123, 130, 137, 144, 151, 158, 165, 172, 179, 186>>, <<9, 14, 19, 24, 29, 34, 39, 44, 49, 54, 59, 64, 69, 74, 79, 84, 89, 94, 99, 104, 109, 114, 119, 124, 129, 134, 139, 144, 149, 154, 159, 164, 169>>, <<165, 141, 61, 250, 182, 88, 98, 90, 102, 205, 56, 6, 80, 129, 171, 83, 164, 192, 45, 222, 210, 148, 224, 194, 255, 152, 154, 213, 145, 237, 229, 77, 14, 3, 66, 86, 114, 196, 208, 121, 142, 203, 194, 20, 83, 65, 91, 21, 146, 13, 32, 125, 159, 17, 150, 152, 114, 72, 163, 190, 58, 175, 118, 35>>, <<115, 141, 80, 149, 70, 118, 187, 152, 233, 114, 74, 213, 35, 245, 250, 177>>>>
>>
ASSUME \A i \in DOMAIN Vectors : LET v == Vectors[i] IN
          Assert(Aead(v[1], v[2], v[3], v[4], v[5]) = [ct |-> v[6], tag |-> v[7]], <<"vector", i>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
