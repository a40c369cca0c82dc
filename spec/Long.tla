-------------------------------- MODULE Long ---------------------------------
(***************************************************************************)
(* Hashers with messages of more than 2^31 bytes.                          *)
(*                                                                         *)
(* Lengths are pairs <<blocks, rest>>.  Content stream k repeats every     *)
(* 2^20 bytes, and a message is always a prefix of one stream, so the      *)
(* state of a hasher is a stream and a length.                             *)
(*                                                                         *)
(* TLC cannot evaluate 2^26 compressions.  The digest of a long message is *)
(* defined from the chaining value before its last block, which comes from *)
(* a witness: links <<chain, j, value before block j, value after>>        *)
(* computed outside.  A link is accepted only if TLC's evaluation of the   *)
(* compression function of Blake2s maps the one value to the other; the    *)
(* links given are consecutive wherever digests are asked for, start at    *)
(* the initial value, and are otherwise a sample of the chain.             *)
(***************************************************************************)
EXTENDS Blake2sp, Pattern

VARIABLES obj,        \* live objects
          wit         \* <<chain, j>> -> chaining value before block j

PeriodBlocks == 16384
LAdd(a, b) == LET r == a[2] + b[2] IN <<a[1] + b[1] + (r \div 64), r % 64>>
(* blocks < 2^31, rest < 64 *)
LU64(n) == <<0, n[1] \div 67108864, (n[1] \div 1024) % 65536, 64 * (n[1] % 1024) + n[2]>>
(* length 64 *)
Next64(j) == LU64(<<j + 1, 0>>)

(* A chain: [kind |-> "plain", "keyed" or "leaf", k, l, key]               *)
ChainParams(c) == IF c.kind = "leaf" THEN LeafParams(DefaultSpParams, c.l) ELSE [DefaultParams EXCEPT !.key = c.key]
Shift(c) == IF c.key = <<>> THEN 0 ELSE 1
ChainBlock(c, j, n) ==        \* block j, the first n bytes of it, zero padded
  TLCEval(IF j < Shift(c) THEN [i \in 1..64 |-> IF i <= Len(c.key) THEN c.key[i] ELSE 0]
          ELSE LET b == (IF c.kind = "leaf" THEN 8 * j + c.l ELSE j - Shift(c)) % PeriodBlocks
               IN  [i \in 1..64 |-> IF i <= n THEN Pat(c.k, 64 * b + i - 1) ELSE 0])
LinkOK(c, lk) ==
  /\ Compress(lk.h, ChainBlock(c, lk.j, 64), Next64(lk.j), ZeroW, ZeroW) = lk.g
  /\ lk.j = 0 => lk.h = InitWords(ChainParams(c))

Plain(k) == [kind |-> "plain", k |-> k, l |-> 0, key |-> <<>>]
Keyed(k, key) == IF key = <<>> THEN Plain(k) ELSE [kind |-> "keyed", k |-> k, l |-> 0, key |-> key]
Leaf(k, l) == [kind |-> "leaf", k |-> k, l |-> l, key |-> <<>>]

(* Digest of the first n = <<j, r>> bytes of the chain's content.          *)
LastOf(n) == IF n[2] = 0 /\ n[1] > 0 THEN n[1] - 1 ELSE n[1]
Witnessed(c, n) == <<c, LastOf(<<n[1] + Shift(c), n[2]>>)>> \in DOMAIN wit
ChainDigest(c, n, ln) ==
  LET m == <<n[1] + Shift(c), n[2]>>
      z == LastOf(m)
  IN  ToBytes(Compress(wit[<<c, z>>], ChainBlock(c, z, IF m[2] = 0 /\ m[1] > 0 THEN 64 ELSE m[2]), LU64(m), OnesW,
                       IF ln THEN OnesW ELSE ZeroW))

(* BLAKE2sp: leaf l gets the chunks c of the message with c % 8 = l.       *)
LeafOf(n, l) == <<(n[1] + 7 - l) \div 8, IF n[1] % 8 = l THEN n[2] ELSE 0>>
SpWitnessed(k, n) == \A l \in 0..7 : Witnessed(Leaf(k, l), LeafOf(n, l))
TreeDigest(k, n) == RootDigest(DefaultSpParams, TLCEval([i \in 1..8 |-> ChainDigest(Leaf(k, i - 1), LeafOf(n, i - 1), i = 8)]))

---------------------------------------------------------------------------
None == [x \in {} |-> x]
Put(r, o) == obj' = (r :> o) @@ obj
Live(x, k) == x \in DOMAIN obj /\ obj[x].kind = k
Zero == <<0, 0>>
(* p: the lengths of the pieces it was input in                            *)
NewS(p) == [kind |-> "S", key |-> p.key, k |-> 0, n |-> Zero, p |-> <<>>, ln |-> p.ln]
NewT == [kind |-> "T", key |-> <<>>, k |-> 0, n |-> Zero, p |-> <<>>, ln |-> FALSE]
NewP == [kind |-> "P", key |-> <<>>, ln |-> FALSE]

(* g = <<stream, offset (2), length (2)>> *)
Fits(o, g) == o.kind \in {"S", "T"} /\ (o.k = 0 \/ o.k = g[1]) /\ o.n = <<g[2], g[3]>>
Input(o, g) == [o EXCEPT !.k = g[1], !.n = LAdd(@, <<g[4], g[5]>>), !.p = Append(@, <<g[4], g[5]>>)]
GLen(g) == <<g[4], g[5]>>
FromZero(g) == g[2] = 0 /\ g[3] = 0

Known(o) == IF o.kind = "S" THEN Witnessed(Keyed(o.k, o.key), o.n) ELSE SpWitnessed(o.k, o.n)
Fin(o) == IF o.kind = "S" THEN ChainDigest(Keyed(o.k, o.key), o.n, o.ln) ELSE TreeDigest(o.k, o.n)
Count(o) == LU64(o.n)
=============================================================================
