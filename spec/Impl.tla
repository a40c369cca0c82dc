-------------------------------- MODULE Impl ----------------------------------
(***************************************************************************)
(* The library as it is designed: hashers with a block buffer and a byte   *)
(* counter, eight-way operations, the tree hasher with its double buffer,  *)
(* parameter builders with a fixed key array.  One operator per function   *)
(* of the library; sizes and the compression function are parameters.      *)
(*                                                                         *)
(* Bug names a seeded design error, "none" for the design itself.  TLC has *)
(* to refuse every other value (tools/selftest.py): a design model that    *)
(* accepts a broken design decides nothing.                                *)
(***************************************************************************)
EXTENDS Control, Sequences, SequencesExt, TLC

CONSTANTS BLOCK, LANES, OUT, ZERO, Compress(_, _, _, _, _), Bug

Fresh(n) == [i \in 1..n |-> ZERO]
From(in, n) == SubSeq(in, n + 1, Len(in))
Overwrite(buf, at, in, n) == [i \in DOMAIN buf |-> IF i > at /\ i <= at + n THEN in[i - at] ELSE buf[i]]

---------------------------------------------------------------------------
(* State *)
Fill(s, in) ==
  LET take == Lower(BLOCK - s.len, Len(in)) IN
  [s |-> [s EXCEPT !.buf = Overwrite(@, s.len, in, take), !.len = @ + take,
                   !.count = IF Bug = "lazycount" /\ s.len + take < BLOCK THEN @ ELSE @ + take],
   in |-> From(in, take)]

CompressBuffer(s) == [s EXCEPT !.h = Compress(@, s.buf, s.count, FALSE, FALSE), !.len = 0]

CompressIfPossible(s, in) ==
  IF s.len = 0 THEN [s |-> s, in |-> in]
  ELSE LET f == Fill(s, in) IN
       IF f.in # <<>> \/ (Bug = "eager" /\ f.s.len = BLOCK) THEN [s |-> CompressBuffer(f.s), in |-> f.in] ELSE f

DirectOne(s, in) ==
  [s |-> [s EXCEPT !.h = Compress(@, SubSeq(in, 1, BLOCK), s.count + (IF Bug = "countafter" THEN 0 ELSE BLOCK), FALSE, FALSE), !.count = @ + BLOCK],
   in |-> From(in, BLOCK)]
GoesDirect(in) == Len(in) > BLOCK \/ (Bug = "greedy" /\ Len(in) = BLOCK)
RECURSIVE Direct(_, _)
Direct(s, in) == IF ~GoesDirect(in) THEN [s |-> s, in |-> in]
                 ELSE LET d == DirectOne(s, in) IN Direct(d.s, d.in)

Update(s, in) ==
  LET a == CompressIfPossible(s, in)
      d == Direct(a.s, a.in)
  IN  Fill(d.s, d.in).s

NewState(h0, key, ln) ==
  LET s == [h |-> h0, buf |-> Fresh(BLOCK), len |-> 0, count |-> 0, ln |-> ln, keyed |-> key # <<>>]
      block == IF Bug = "shortkey" THEN key ELSE key \o Fresh(BLOCK - Len(key))
  IN  IF key = <<>> THEN s ELSE Update(s, block)

ZeroTail(s) == IF Bug = "notail" THEN s ELSE [s EXCEPT !.buf = [i \in 1..BLOCK |-> IF i <= s.len THEN @[i] ELSE ZERO]]
Finalize(s) ==
  LET z == ZeroTail(s)
      d == Compress(z.h, z.buf, z.count, TRUE, z.ln /\ Bug # "nonode")
  IN  [s |-> IF Bug = "inplace" THEN [z EXCEPT !.h = d] ELSE IF Bug = "restart" THEN [z EXCEPT !.len = 0] ELSE z, d |-> d]
CountOf(s) == s.count - (IF s.keyed /\ Bug # "keycount" THEN BLOCK ELSE 0)

---------------------------------------------------------------------------
(* Eight-way operations on as many lanes as there are hashers given.       *)
RECURSIVE Update8Loop(_, _)
Update8Loop(ss, ins) ==
  IF (\A i \in DOMAIN ins : Len(ins[i]) > BLOCK) \/ (Bug = "anylane" /\ \E i \in DOMAIN ins : Len(ins[i]) > BLOCK /\ \A j \in DOMAIN ins : Len(ins[j]) >= BLOCK)
  THEN LET r == [i \in DOMAIN ss |-> [s |-> [ss[i] EXCEPT !.h = Compress(@, SubSeq(ins[i], 1, BLOCK), ss[IF Bug = "lanecount" THEN 1 ELSE i].count + BLOCK, FALSE, FALSE), !.count = @ + BLOCK],
                                     in |-> From(ins[i], BLOCK)]]
       IN  Update8Loop([i \in DOMAIN ss |-> r[i].s], [i \in DOMAIN ss |-> r[i].in])
  ELSE [i \in DOMAIN ss |-> Update(ss[i], ins[i])]

Update8(ss, ins) ==
  LET c == [i \in DOMAIN ss |-> IF Bug = "noflush" THEN [s |-> ss[i], in |-> ins[i]] ELSE CompressIfPossible(ss[i], ins[i])]
  IN  Update8Loop([i \in DOMAIN ss |-> c[i].s], [i \in DOMAIN ss |-> c[i].in])

Finalize8(ss) ==
  LET z == [i \in DOMAIN ss |-> IF Bug = "tail1" /\ i > 1 THEN ss[i] ELSE ZeroTail(ss[i])]
      node(i) == z[IF Bug = "node1" THEN 1 ELSE i].ln
      d == [i \in DOMAIN ss |-> Compress(z[i].h, z[i].buf, z[i].count, TRUE, node(i))]
  IN  [ss |-> z, d |-> d]

(* hash8: chaining values in step while every input has a block to spare,  *)
(* or all end together; then each by itself.  Indices into the inputs are  *)
(* checked where they are used: Block is only defined inside the input.    *)
Block(in, count) ==
  IF count + BLOCK > Len(in) THEN Assert(FALSE, <<"read past the end", count, Len(in)>>)
  ELSE SubSeq(in, count + 1, count + BLOCK)
RECURSIVE Hash8Loop(_, _, _, _)
Hash8Loop(hs, ps, ins, count) ==
  LET left(i) == IF Len(ins[i]) < count THEN Assert(FALSE, "length underflow") ELSE Len(ins[i]) - count
      all(P(_)) == \A i \in DOMAIN ins : P(i)
      update == all(LAMBDA i : left(i) > BLOCK)
      final == all(LAMBDA i : left(i) = BLOCK) \/ (Bug = "finalany" /\ all(LAMBDA i : left(i) >= BLOCK) /\ \E i \in DOMAIN ins : left(i) = BLOCK)
      c == count + BLOCK
  IN  IF update /\ ~final
      THEN Hash8Loop([i \in DOMAIN hs |-> Compress(hs[i], Block(ins[i], count), c, FALSE, FALSE)], ps, ins, c)
      ELSE IF final
      THEN [i \in DOMAIN hs |-> Compress(hs[i], Block(ins[i], count), c, TRUE, ps[i].ln)]
      ELSE [i \in DOMAIN hs |->
             Finalize(Update([h |-> hs[i], buf |-> Fresh(BLOCK), len |-> 0, count |-> IF Bug = "losecount" THEN 0 ELSE count, ln |-> ps[i].ln, keyed |-> FALSE],
                             From(ins[i], count))).d]
Hash8Accepts(ps) == \A i \in DOMAIN ps : ps[i].key = <<>> \/ (Bug = "key1" /\ i # 1)
Hash8(ps, h0, ins) == Hash8Loop([i \in DOMAIN ps |-> h0[i]], ps, ins, 0)

(* hashN_exact: the guard that makes raw pointers safe, then the same      *)
(* number of blocks everywhere; with a key its block goes first.           *)
ExactAccepts(ins) ==
  /\ Bug = "unequal" \/ \A i \in DOMAIN ins : Len(ins[i]) = Len(ins[1])
  /\ Bug = "ragged" \/ Len(ins[1]) % BLOCK = 0
  /\ Bug = "empty" \/ Len(ins[1]) # 0
RECURSIVE ExactLoop(_, _, _, _, _)
ExactLoop(hs, p, ins, pos, base) ==
  IF pos + BLOCK > Len(ins[1]) /\ (pos # 0 \/ Bug # "empty") THEN Assert(FALSE, "no last block")
  ELSE LET last == pos + BLOCK = Len(ins[1])
           t == base + pos + BLOCK
           h == [i \in DOMAIN hs |-> Compress(hs[i], Block(ins[i], pos), t, last, last /\ p.ln)]
       IN  IF last THEN h ELSE ExactLoop(h, p, ins, pos + BLOCK, base)
Exact(p, h0, ins) ==
  LET keyed == p.key # <<>> /\ Bug # "nokeyblock"
      start == [i \in DOMAIN ins |-> IF keyed THEN Compress(h0, p.key \o Fresh(BLOCK - Len(p.key)), BLOCK, FALSE, FALSE) ELSE h0]
  IN  ExactLoop(start, p, ins, 0, IF keyed THEN BLOCK ELSE 0)

---------------------------------------------------------------------------
(* blake2sp::State: leaves, root parameters, double buffer.                *)
STRIPE == LANES * BLOCK
DigestBytes(h) == [i \in 1..OUT |-> <<3, i, h>>]

SpNew(h0, r0, key) ==       \* h0[i]: initial value of leaf i (0..LANES-1), r0 of the root
  [leaf |-> [i \in 1..LANES |-> NewState(h0[i], key, i = LANES)],
   root |-> LET r == NewState(r0, IF Bug = "rootkey" THEN key ELSE <<>>, TRUE) IN r,
   buf |-> Fresh(2 * STRIPE), len |-> 0]

SpFill(t, in) ==
  LET take == Lower(2 * STRIPE - t.len, Len(in)) IN
  [t |-> [t EXCEPT !.buf = Overwrite(@, t.len, in, take), !.len = @ + take], in |-> From(in, take)]

(* One block to each leaf.  A key block still waiting goes first.          *)
SpCompress(t, in) ==
  [t EXCEPT !.leaf = [i \in 1..LANES |->
     LET f == IF Bug = "keywait" THEN @[i] ELSE CompressIfPossible(@[i], in).s
         blk == SubSeq(in, BLOCK * (i - 1) + 1, BLOCK * i)
     IN  [f EXCEPT !.count = @ + BLOCK, !.h = Compress(@, blk, f.count + BLOCK, FALSE, FALSE)]]]

ShiftLeft(t) == [t EXCEPT !.buf = [i \in 1..(2 * STRIPE) |-> IF i <= t.len /\ Bug # "noshift" THEN @[STRIPE + i] ELSE @[i]]]
SpSecond(in) == Len(in) > (LANES - (IF Bug = "second" THEN 2 ELSE 1)) * BLOCK
SpFar(in) == Len(in) > (2 * LANES - (IF Bug = "far" THEN 2 ELSE 1)) * BLOCK
RECURSIVE SpDirect(_, _)
SpDirect(t, in) == IF ~SpFar(in) THEN [t |-> t, in |-> in]
                   ELSE SpDirect(SpCompress(t, SubSeq(in, 1, STRIPE)), From(in, STRIPE))
SpUpdate(t, in) ==
  LET f == IF t.len > 0 THEN SpFill(t, in) ELSE [t |-> t, in |-> in]
      a == IF t.len = 0 \/ f.in = <<>> THEN f.t
           ELSE LET one == [SpCompress(f.t, SubSeq(f.t.buf, 1, STRIPE)) EXCEPT !.len = @ - STRIPE] IN
                IF SpSecond(f.in) THEN [SpCompress(one, SubSeq(f.t.buf, STRIPE + 1, 2 * STRIPE)) EXCEPT !.len = 0]
                ELSE ShiftLeft(one)
      d == IF a.len > 0 THEN [t |-> a, in |-> f.in] ELSE SpDirect(a, f.in)
  IN  SpFill(d.t, d.in).t

SpFinalize(t) ==
  LET part(c) ==      \* chunk c (0-based) of what the buffer holds
        LET lo == BLOCK * c
            hi == Lower(t.len, BLOCK * (c + 1))
        IN  SubSeq(t.buf, lo + 1, hi)
      half(x, c) == Update(x, part(c))
      leaf(i) == Finalize(half(half(t.leaf[i], i - 1), LANES + i - 1)).d
      root == FoldLeft(LAMBDA r, i : Update(r, DigestBytes(leaf(IF Bug = "order" THEN LANES + 1 - i ELSE i))), t.root, [i \in 1..LANES |-> i])
  IN  [t |-> t, d |-> Finalize(root).d]
SpCount(t) == FoldLeft(LAMBDA a, i : a + CountOf(t.leaf[i]), t.len, [i \in 1..LANES |-> i])

---------------------------------------------------------------------------
(* Params: the key is kept in an array of fixed size.                      *)
KeySet(p, key, max) ==
  [p EXCEPT !.klen = Len(key),
            !.key = [i \in 1..max |-> IF i <= Len(key) THEN key[i] ELSE IF Bug = "residue" THEN p.key[i] ELSE ZERO]]
(* The key block is made of the whole array.                               *)
KeyBlockOf(p) == IF p.klen = 0 THEN <<>> ELSE p.key
=============================================================================
