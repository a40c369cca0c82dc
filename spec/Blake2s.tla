------------------------------ MODULE Blake2s -------------------------------
(***************************************************************************)
(* BLAKE2s (RFC 7693 and the BLAKE2 paper), bit exact, as mathematics:     *)
(* no buffering, no lanes, no implementation structure.  This module is    *)
(* the oracle for every digest in this verification.                       *)
(***************************************************************************)
EXTENDS Word32, Sequences, SequencesExt, TLC

(* TLCEval(e) = e; it only makes TLC evaluate e once instead of on demand. *)

BLOCK == 64
OUT == 32

IV == << <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>,
         <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>,  <<23520, 52505>> >>

SIGMA == <<
 <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>,
 <<14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3>>,
 <<11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4>>,
 <<7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8>>,
 <<9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13>>,
 <<2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9>>,
 <<12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11>>,
 <<13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10>>,
 <<6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5>>,
 <<10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0>> >>

(* The mixing function G of RFC 7693 section 3.1: rotations 16, 12, 8, 7.  *)
G(va, vb, vc, vd, x, y) ==
  LET a1 == WAdd3(va, vb, x)
      d1 == WXorRot16(vd, a1)
      c1 == WAdd(vc, d1)
      b1 == WXorRot(vb, c1, 4096, 16)
      a2 == WAdd3(a1, b1, y)
      d2 == WXorRot(d1, a2, 256, 256)
      c2 == WAdd(c1, d2)
      b2 == WXorRot(b1, c2, 128, 512)
  IN  <<a2, b2, c2, d2>>

Round(v, m, s) ==
  LET p0 == G(v[1], v[5], v[9],  v[13], m[s[1] + 1], m[s[2] + 1])
      p1 == G(v[2], v[6], v[10], v[14], m[s[3] + 1], m[s[4] + 1])
      p2 == G(v[3], v[7], v[11], v[15], m[s[5] + 1], m[s[6] + 1])
      p3 == G(v[4], v[8], v[12], v[16], m[s[7] + 1], m[s[8] + 1])
      q0 == G(p0[1], p1[2], p2[3], p3[4], m[s[9] + 1],  m[s[10] + 1])
      q1 == G(p1[1], p2[2], p3[3], p0[4], m[s[11] + 1], m[s[12] + 1])
      q2 == G(p2[1], p3[2], p0[3], p1[4], m[s[13] + 1], m[s[14] + 1])
      q3 == G(p3[1], p0[2], p1[3], p2[4], m[s[15] + 1], m[s[16] + 1])
  IN  <<q0[1], q1[1], q2[1], q3[1],  q3[2], q0[2], q1[2], q2[2],
        q2[3], q3[3], q0[3], q1[3],  q1[4], q2[4], q3[4], q0[4]>>

(* blk is a 64-tuple of bytes; word i (0-based) is little endian.          *)
MsgWord(blk, i) == <<blk[4*i + 3] + 256 * blk[4*i + 4], blk[4*i + 1] + 256 * blk[4*i + 2]>>

(* The compression function: chaining value h (8 words), block, counter t  *)
(* (64 bits), and the two 32-bit finalization words f0 (last block) and    *)
(* f1 (last node).                                                         *)
Compress(h, blk, t, f0, f1) ==
  LET m == TLCEval([i \in 1..16 |-> MsgWord(blk, i - 1)])
      v0 == <<h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8],
              IV[1], IV[2], IV[3], IV[4],
              WXor(IV[5], U64Lo(t)), WXor(IV[6], U64Hi(t)),
              WXor(IV[7], f0), WXor(IV[8], f1)>>
      w == FoldLeft(LAMBDA v, s : Round(v, m, s), v0, SIGMA)
  IN  TLCEval([i \in 1..8 |-> WXor(h[i], WXor(w[i], w[i + 8]))])

(* Parameters. Numeric fields are small integers except leaf (32 bits, a   *)
(* word) and noff (48 bits, a U64); key/salt/pers are byte sequences, the  *)
(* latter two always 8 long.                                               *)
Zeros8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
DefaultParams ==
  [hl |-> 32, key |-> <<>>, salt |-> Zeros8, pers |-> Zeros8, fan |-> 1, dep |-> 1,
   leaf |-> ZeroW, noff |-> <<0, 0, 0, 0>>, nd |-> 0, ihl |-> 0, ln |-> FALSE]

(* The 32-byte parameter block of the BLAKE2 paper (section 2.8), XORed    *)
(* into the IV as eight little-endian words.                               *)
ParamBlock(p) ==
  << p.hl, Len(p.key), p.fan, p.dep,
     p.leaf[2] % 256, p.leaf[2] \div 256, p.leaf[1] % 256, p.leaf[1] \div 256,
     p.noff[4] % 256, p.noff[4] \div 256, p.noff[3] % 256, p.noff[3] \div 256,
     p.noff[2] % 256, p.noff[2] \div 256, p.nd, p.ihl >> \o p.salt \o p.pers

InitWords(p) ==
  LET b == ParamBlock(p)
  IN  TLCEval([i \in 1..8 |-> WXor(IV[i], MsgWord(b, i - 1))])

ToBytes(h) ==
  TLCEval([i \in 1..32 |-> LET w == h[((i - 1) \div 4) + 1]
                       r == (i - 1) % 4
                   IN  CASE r = 0 -> w[2] % 256 [] r = 1 -> w[2] \div 256
                         [] r = 2 -> w[1] % 256 [] r = 3 -> w[1] \div 256])

Trunc(d, n) == SubSeq(d, 1, n)

(* The mode of operation, with this compression function.                  *)
CompressF(h, blk, t, last, node) == Compress(h, blk, t, IF last THEN OnesW ELSE ZeroW, IF node THEN OnesW ELSE ZeroW)
M == INSTANCE Mode WITH LANES <- 8, ZERO <- 0, Compress <- CompressF, Count <- U64

(* The digest of RFC 7693 section 3.3 (full 32 bytes; callers truncate).   *)
HashFull(h0, key, len, At(_), ln) == ToBytes(M!Hash(h0, key, len, At, ln))

Digest(p, len, At(_), ln) == Trunc(HashFull(InitWords(p), p.key, len, At, ln), p.hl)
=============================================================================
