------------------------------ MODULE Blake2sp ------------------------------
(***************************************************************************)
(* BLAKE2sp: the fixed 8-way tree mode over BLAKE2s (BLAKE2 paper section  *)
(* 2.9-2.10 and the reference implementation).                             *)
(***************************************************************************)
EXTENDS Blake2s

LANES == 8

DefaultSpParams == [hl |-> 32, key |-> <<>>]

(* Leaf i and root parameters.  The key length is part of every node's     *)
(* parameter block; only the leaves hash the key bytes themselves.         *)
NodeParams(q, off, depth) ==
  [DefaultParams EXCEPT !.hl = q.hl, !.key = q.key, !.fan = 8, !.dep = 2,
                        !.noff = U64(off), !.nd = depth, !.ihl = OUT]
LeafParams(q, i) == NodeParams(q, i, 0)
RootParams(q) == NodeParams(q, 0, 1)

LeafDigest(q, len, At(_), i) == ToBytes(M!Leaf(InitWords(LeafParams(q, i)), q.key, len, At, i))

RootDigest(q, leaves) ==     \* leaves: 8-tuple of 32-byte digests
  LET RAt(x) == leaves[(x \div 32) + 1][(x % 32) + 1]
  IN  Trunc(HashFull(InitWords(RootParams(q)), <<>>, 32 * LANES, RAt, TRUE), q.hl)

SpDigest(q, len, At(_)) ==
  RootDigest(q, TLCEval([i \in 1..LANES |-> LeafDigest(q, len, At, i - 1)]))
=============================================================================
