------------------------------- MODULE LongLib -------------------------------
(***************************************************************************)
(* Vocabulary of the generators of long messages (see Long): lengths are   *)
(* pairs <<blocks, rest>>, a slice is <<stream, offset (2), length (2)>>.  *)
(***************************************************************************)
EXTENDS GenLib

J == 67108864                \* blocks in 2^32 bytes
H == 33554432                \* blocks in 2^31 bytes
L == 8388608                 \* blocks of each leaf in 2^32 bytes
Key == Bytes(4, 21)
I8 == <<1, 2, 3, 4, 5, 6, 7, 8>>
Id(c, i) == c \o ToString(i)
Ids(c) == [i \in 1..8 |-> Id(c, i)]
Each8(F(_)) == FlattenSeq([i \in 1..8 |-> F(i)])
K(i) == 2 + i                \* stream of lane i
KSp == 11

LAdd(a, b) == LET r == a[2] + b[2] IN <<a[1] + b[1] + (r \div 64), r % 64>>
B(n) == <<n \div 64, n % 64>>          \* a length in bytes
Sub192(n) == <<n - 3, 0>>              \* n blocks less 192 bytes

Seg(k, at, n) == <<k, at[1], at[2], n[1], n[2]>>
lUpd(x, k, at, n, via) == [op |-> "upd", x |-> x, lin |-> Seg(k, at, n), via |-> via]
(* consecutive pieces, each followed by count and finalize                 *)
RECURSIVE Walk(_, _, _, _, _)
Walk(x, k, at, ns, via) ==
  IF ns = <<>> THEN <<>>
  ELSE << lUpd(x, k, at, ns[1], via), oCnt(x), oFin(x) >> \o Walk(x, k, LAdd(at, ns[1]), Tail(ns), (via + 1) % 4)
Span(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
=============================================================================
