-------------------------------- MODULE Mode ---------------------------------
(***************************************************************************)
(* The BLAKE2 mode of operation, over any compression function: how a key  *)
(* and a message become a sequence of compressions, and how a message is   *)
(* dealt to the leaves of the tree mode.  Blake2s and Blake2sp instantiate *)
(* it with the real compression function and sizes; the design models      *)
(* (DStream, DMulti, DSp, ...) with small sizes and a free one, so that    *)
(* what the designs are proved to refine is this same text.                *)
(*                                                                         *)
(* Compress(h, block, t, last, node): t is a byte counter as Count gives   *)
(* it; last and node are the finalization flags, BOOLEAN.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS BLOCK, LANES, ZERO, Compress(_, _, _, _, _), Count(_)

(* TLCEval(e) = e; it only makes TLC evaluate e once instead of on demand. *)

(* A message is given by its length and a byte operator At(0..len-1).  The *)
(* hashed data is the zero-padded key block (if there is a key), then the  *)
(* message.                                                                *)
KeyLen(key) == IF key = <<>> THEN 0 ELSE BLOCK
DataAt(key, len, At(_), x) ==
  LET k == KeyLen(key) IN
  IF x < k THEN IF x < Len(key) THEN key[x + 1] ELSE ZERO
  ELSE IF x - k < len THEN At(x - k) ELSE ZERO
DataBlock(key, len, At(_), j) ==            \* 0-based block j, zero padded
  TLCEval([i \in 1..BLOCK |-> DataAt(key, len, At, BLOCK * j + i - 1)])
NumBlocks(n) == IF n = 0 THEN 1 ELSE (n + BLOCK - 1) \div BLOCK

(* From a chaining value after `from` blocks to the one after `to` blocks, *)
(* none of which is the last; all of them, as a sequence.                  *)
Chain(chain, key, len, At(_), to) ==
  FoldLeft(LAMBDA c, i : Append(c, Compress(c[i], DataBlock(key, len, At, i - 1), Count(BLOCK * i), FALSE, FALSE)),
           chain, [i \in 1..(to + 1 - Len(chain)) |-> Len(chain) + i - 1])
Final(h, key, len, At(_), ln) ==
  LET n == KeyLen(key) + len IN
  Compress(h, DataBlock(key, len, At, NumBlocks(n) - 1), Count(n), TRUE, ln)

(* RFC 7693 section 3.3.                                                   *)
Hash(h0, key, len, At(_), ln) ==
  LET nb == NumBlocks(KeyLen(key) + len)
      h == FoldLeft(LAMBDA acc, j : Compress(acc, DataBlock(key, len, At, j - 1), Count(BLOCK * j), FALSE, FALSE),
                    h0, [j \in 1..(nb - 1) |-> j])
  IN  Final(h, key, len, At, ln)

(* Tree mode: chunks of BLOCK bytes are dealt round robin, chunk c belongs *)
(* to leaf c % LANES.                                                      *)
STRIPE == LANES * BLOCK
LeafLen(len, i) ==
  LET full == len \div STRIPE
      rem == (len % STRIPE) - BLOCK * i
  IN  BLOCK * full + (IF rem < 0 THEN 0 ELSE IF rem > BLOCK THEN BLOCK ELSE rem)
LeafPos(i, x) == (x \div BLOCK) * STRIPE + BLOCK * i + (x % BLOCK)
Leaf(h0, key, len, At(_), i) ==
  Hash(h0, key, LeafLen(len, i), LAMBDA x : At(LeafPos(i, x)), i = LANES - 1)
=============================================================================
