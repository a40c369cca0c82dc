------------------------------ MODULE FuncTest ------------------------------
(***************************************************************************)
(* Known answers for the value-level specification itself: RFC 7693        *)
(* appendix B and the BLAKE2 authors' test vectors (blake2-kat.json of the *)
(* reference implementation), so that the oracle is anchored outside this  *)
(* repository's code.                                                      *)
(***************************************************************************)
EXTENDS Blake2sp, TLC
Abc(i) == 97 + i
Cnt(i) == i % 256
RfcAbc == <<80,140,94,140,50,124,20,226,225,167,43,163,78,235,69,47,55,69,139,32,158,214,58,41,77,153,155,76,134,103,89,130>>
Key32 == [i \in 1..32 |-> i - 1]
ASSUME Digest(DefaultParams, 3, Abc, FALSE) = RfcAbc
ASSUME Digest([DefaultParams EXCEPT !.key = <<>>], 0, Cnt, FALSE) =
  <<105, 33, 122, 48, 121, 144, 128, 148, 225, 17, 33, 208, 66, 53, 74, 124, 31, 85, 182, 72, 44, 161, 165, 30, 27, 37, 13, 253, 30, 208, 238, 249>>
ASSUME Digest([DefaultParams EXCEPT !.key = <<>>], 64, Cnt, FALSE) =
  <<86, 243, 78, 139, 150, 85, 126, 144, 193, 242, 75, 82, 208, 200, 157, 81, 8, 106, 207, 27, 0, 246, 52, 207, 29, 222, 146, 51, 184, 234, 170, 62>>
ASSUME Digest([DefaultParams EXCEPT !.key = <<>>], 65, Cnt, FALSE) =
  <<27, 83, 238, 148, 170, 243, 78, 75, 21, 157, 72, 222, 53, 44, 127, 6, 97, 208, 164, 14, 223, 249, 90, 11, 22, 57, 180, 9, 14, 151, 68, 114>>
ASSUME Digest([DefaultParams EXCEPT !.key = <<>>], 255, Cnt, FALSE) =
  <<240, 63, 87, 137, 211, 51, 107, 128, 208, 2, 213, 159, 223, 145, 139, 219, 119, 91, 0, 149, 110, 213, 82, 142, 134, 170, 153, 74, 203, 56, 254, 45>>
ASSUME Digest([DefaultParams EXCEPT !.key = Key32], 0, Cnt, FALSE) =
  <<72, 168, 153, 125, 164, 7, 135, 107, 61, 121, 192, 217, 35, 37, 173, 59, 137, 203, 183, 84, 216, 106, 183, 26, 238, 4, 122, 211, 69, 253, 44, 73>>
ASSUME Digest([DefaultParams EXCEPT !.key = Key32], 1, Cnt, FALSE) =
  <<64, 209, 95, 238, 124, 50, 136, 48, 22, 106, 195, 249, 24, 101, 15, 128, 126, 126, 1, 225, 119, 37, 140, 220, 10, 57, 177, 31, 89, 128, 102, 241>>
ASSUME Digest([DefaultParams EXCEPT !.key = Key32], 64, Cnt, FALSE) =
  <<137, 117, 176, 87, 127, 211, 85, 102, 215, 80, 179, 98, 176, 137, 122, 38, 195, 153, 19, 109, 240, 123, 171, 171, 189, 230, 32, 63, 242, 149, 78, 212>>
ASSUME Digest([DefaultParams EXCEPT !.key = Key32], 255, Cnt, FALSE) =
  <<63, 183, 53, 6, 26, 188, 81, 157, 254, 151, 158, 84, 193, 238, 91, 250, 208, 169, 216, 88, 179, 49, 91, 173, 52, 189, 233, 153, 239, 215, 36, 221>>
ASSUME SpDigest([hl |-> 32, key |-> <<>>], 0, Cnt) =
  <<221, 14, 137, 23, 118, 147, 63, 67, 199, 208, 50, 176, 138, 145, 126, 37, 116, 31, 138, 169, 161, 44, 18, 225, 202, 200, 128, 21, 0, 242, 202, 79>>
ASSUME SpDigest([hl |-> 32, key |-> <<>>], 64, Cnt) =
  <<82, 96, 59, 108, 191, 173, 73, 102, 203, 4, 76, 178, 103, 86, 131, 133, 207, 53, 242, 30, 108, 69, 207, 48, 174, 209, 152, 50, 203, 81, 233, 245>>
ASSUME SpDigest([hl |-> 32, key |-> <<>>], 255, Cnt) =
  <<37, 5, 159, 16, 96, 94, 103, 173, 254, 104, 19, 80, 102, 110, 21, 174, 151, 106, 90, 87, 28, 19, 207, 91, 200, 5, 63, 67, 14, 18, 10, 82>>
ASSUME SpDigest([hl |-> 32, key |-> Key32], 0, Cnt) =
  <<113, 92, 177, 56, 149, 174, 182, 120, 246, 18, 65, 96, 191, 242, 20, 101, 179, 15, 79, 104, 116, 25, 63, 200, 81, 180, 98, 16, 67, 240, 156, 198>>
ASSUME SpDigest([hl |-> 32, key |-> Key32], 65, Cnt) =
  <<135, 78, 25, 56, 3, 61, 125, 56, 53, 151, 162, 166, 95, 88, 181, 84, 228, 17, 6, 246, 209, 213, 14, 155, 160, 235, 104, 95, 107, 109, 160, 113>>
ASSUME SpDigest([hl |-> 32, key |-> Key32], 255, Cnt) =
  <<12, 138, 54, 89, 125, 116, 97, 198, 58, 148, 115, 40, 33, 201, 65, 133, 108, 102, 131, 118, 96, 108, 134, 165, 45, 224, 238, 65, 4, 198, 21, 219>>

VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================
