------------------------------- MODULE Word32 -------------------------------
(***************************************************************************)
(* 32-bit words.  TLC's integers are 32-bit signed and trap on overflow,   *)
(* so a word is a pair <<high half, low half>> of 16-bit naturals.         *)
(* 64-bit quantities (byte counters, node offsets) are 4-tuples of 16-bit  *)
(* naturals, most significant first.                                       *)
(***************************************************************************)
EXTENDS Integers, Bitwise

Half == 0..65535
ZeroW == <<0, 0>>
OnesW == <<65535, 65535>>

WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>

WAdd(a, b) ==
  LET l == a[2] + b[2]
  IN  <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>

WAdd3(a, b, c) ==
  LET l == a[2] + b[2] + c[2]
  IN  <<(a[1] + b[1] + c[1] + (l \div 65536)) % 65536, l % 65536>>

(* (a XOR b) rotated right by 16 *)
WXorRot16(a, b) == <<a[2] ^^ b[2], a[1] ^^ b[1]>>

(* (a XOR b) rotated right by n < 16, with p = 2^n and q = 2^(16-n) *)
WXorRot(a, b, p, q) ==
  LET h == a[1] ^^ b[1]
      l == a[2] ^^ b[2]
  IN  <<(h \div p) + (l % p) * q, (l \div p) + (h % p) * q>>

(* 64-bit values as <<w3, w2, w1, w0>>, most significant half first. *)
U64(n) == <<0, 0, n \div 65536, n % 65536>>      \* n a TLC integer (< 2^31)
U64Add(a, b) ==
  LET s4 == a[4] + b[4]
      s3 == a[3] + b[3] + (s4 \div 65536)
      s2 == a[2] + b[2] + (s3 \div 65536)
      s1 == a[1] + b[1] + (s2 \div 65536)
  IN  <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
U64Lo(c) == <<c[3], c[4]>>                       \* low 32-bit word
U64Hi(c) == <<c[1], c[2]>>                       \* high 32-bit word
U64Small(c) == c[1] = 0 /\ c[2] = 0 /\ c[3] = 0  \* fits in 16 bits
=============================================================================
