------------------------------ MODULE Pattern -------------------------------
(***************************************************************************)
(* Message contents.  Traces do not carry message bytes; they carry        *)
(* segments <<k, o, n>>: n bytes of content stream k starting at offset o. *)
(* The harness generates the same bytes.  A message is a sequence of       *)
(* segments, kept in a normal form in which adjacent pieces of one stream  *)
(* are merged, so that equal messages split differently look the same.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

(* k = 0: zeros; 1: all ones; 1000+b: constant byte b; 2000+j: a single    *)
(* 0x80 at offset j; otherwise a non-repeating stream numbered k, of which *)
(* 1300+j (j > 1) is the text form, all bytes below 128; 10000+j has       *)
(* blocks of five kinds by the digits of j, 11000+j words of four kinds.   *)
Bytestream(k, i) == ((((i % 4096) * 40503 + ((i \div 4096) % 65536) * 7919
                      + (i % 251) * (i % 241) * 97 + k * 30011) % 65536) \div 256)
(* blocks of zeros, of ones, one and the same block, other blocks, blocks  *)
(* half of zeros                                                           *)
Blockwise(j, i) ==
  LET d == (j \div (5 ^ ((i \div 64) % 4))) % 5 IN
  CASE d = 0 -> 0
    [] d = 1 -> 255
    [] d = 2 -> Bytestream(5, i % 64)
    [] d = 4 /\ i % 64 < 32 -> 0
    [] OTHER -> Bytestream(j + 2, i)
(* words of zeros, of ones, of a lone top bit, of anything                 *)
Wordwise(j, i) ==
  LET d == Bytestream(j, i \div 4) % 4 IN
  CASE d = 0 -> 0
    [] d = 1 -> 255
    [] d = 2 -> Bytestream(j + 1, i)
    [] OTHER -> IF i % 4 = 3 THEN 128 ELSE 0
Pat(k, i) ==
  CASE k = 0 -> 0
    [] k = 1 -> 255
    [] k >= 1000 /\ k < 1256 -> k - 1000
    [] k >= 11000 -> Wordwise(k - 11000, i)
    [] k >= 10000 -> Blockwise(k - 10000, i)
    [] k >= 2000 -> IF i = k - 2000 THEN 128 ELSE 0
    [] k >= 1300 -> Bytestream(k - 1300, i) % 128
    [] OTHER -> Bytestream(k, i)

SegLen(g) == g[3]
MsgLen(msg) == FoldLeft(LAMBDA a, g : a + g[3], 0, msg)

AddSeg(msg, g) ==
  IF g[3] = 0 THEN msg
  ELSE IF msg = <<>> THEN <<g>>
  ELSE LET z == msg[Len(msg)]
       IN  IF z[1] = g[1] /\ z[2] + z[3] = g[2]
           THEN [msg EXCEPT ![Len(msg)] = <<z[1], z[2], z[3] + g[3]>>]
           ELSE Append(msg, g)

SegBytes(g) == [i \in 1..g[3] |-> Pat(g[1], g[2] + i - 1)]
MsgBytes(msg) == TLCEval(FoldLeft(LAMBDA a, g : a \o SegBytes(g), <<>>, msg))
=============================================================================
