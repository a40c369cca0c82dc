-------------------------------- MODULE DSimd ---------------------------------
(***************************************************************************)
(* Design model: where the words are in the vector implementations of the  *)
(* compression function (C16; lane independence in C12, C13, C14).         *)
(*                                                                         *)
(* Vectors are sequences of opaque tokens (16-bit halves of words for the  *)
(* 128-bit form, since its blends act on those), vector instructions move  *)
(* tokens.  What is computed is free; only places matter: additions, xors  *)
(* and rotations act on each lane alone and do not move anything.          *)
(*   Form "one"   : a block in four rows, message words gathered by        *)
(*                  shuffles, rows rotated between columns and diagonals.  *)
(*   Form "four", "eight" : a word of every lane in each vector, states    *)
(*                  and blocks transposed on the way in and out.           *)
(*   Mixed  : every mixing step acts on the words v[a], v[b], v[c], v[d],  *)
(*            m[x] that RFC 7693 prescribes, all of the same lane.         *)
(*   Done   : the words are back in place at the end.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Bug
B2 == INSTANCE Blake2s
SIGMA == B2!SIGMA

---------------------------------------------------------------------------
(* 128 bits: 8 halves                                                      *)
Word(v, i) == <<v[2 * i + 1], v[2 * i + 2]>>
Words(a, b, c, d) == a \o b \o c \o d
Shuf(v, p) == Words(Word(v, p[1]), Word(v, p[2]), Word(v, p[3]), Word(v, p[4]))
ShufPs(u, v, p) == Words(Word(u, p[1]), Word(u, p[2]), Word(v, p[3]), Word(v, p[4]))
ShufHi(v, p) == SubSeq(v, 1, 4) \o [i \in 1..4 |-> v[5 + p[i]]]
Blend(u, v, m) == [i \in 1..8 |-> IF (i - 1) \in m THEN v[i] ELSE u[i]]
Left(v, n) == [i \in 1..8 |-> IF i <= n \div 2 THEN "zero" ELSE v[i - (n \div 2)]]
Right(v, n) == [i \in 1..8 |-> IF i + (n \div 2) > 8 THEN "zero" ELSE v[i + (n \div 2)]]
Lo32(u, v) == Words(Word(u, 0), Word(v, 0), Word(u, 1), Word(v, 1))
Hi32(u, v) == Words(Word(u, 2), Word(v, 2), Word(u, 3), Word(v, 3))
Lo64(u, v) == SubSeq(u, 1, 4) \o SubSeq(v, 1, 4)
Hi64(u, v) == SubSeq(u, 5, 8) \o SubSeq(v, 5, 8)

(* The gathered message vectors: for each round, of the two steps on the   *)
(* columns and the two steps on the diagonals.                             *)
Gather(m0, m1, m2, m3) == <<
  << ShufPs(m0, m1, <<0, 2, 0, 2>>),
     ShufPs(m0, m1, <<1, 3, 1, 3>>),
     ShufPs(m2, m3, <<0, 2, 0, 2>>),
     ShufPs(m2, m3, <<1, 3, 1, 3>>) >>,
  << Shuf(Blend(Blend(m1, m2, {2, 3}), Left(m3, 4), {4, 5, 6, 7}), <<3, 0, 1, 2>>),
     Shuf(Blend(Shuf(m2, <<0, 2, 0, 0>>), Blend(m1, m3, {6, 7}), {4, 5, 6, 7}), <<1, 0, 3, 2>>),
     Shuf(Blend(m0, Blend(m2, Left(m1, 4), {4, 5}), {4, 5, 6, 7}), <<1, 0, 3, 2>>),
     Shuf(Blend(Hi32(m0, m1), Left(m3, 4), {2, 3}), <<1, 0, 3, 2>>) >>,
  << Shuf(Blend(Hi32(m2, m3), Blend(m3, m1, {2, 3}), {0, 1, 2, 3}), <<2, 0, 1, 3>>),
     Blend(Blend(Lo32(m2, m0), m0, {4, 5, 6, 7}), Left(m3, 8), {6, 7}),
     Shuf(Blend(Blend(m0, m2, {2, 3, 4, 5}), Right(m1, 12), {0, 1}), <<2, 3, 0, 1>>),
     Shuf(Blend(Blend(m0, m1, {0, 1, 4, 5}), Left(m3, 4), {6, 7}), <<3, 2, 1, 0>>) >>,
  << Shuf(Blend(Hi32(Hi32(m0, m1), m2), m3, {2, 3}), <<2, 0, 1, 3>>),
     Shuf(Blend(Blend(m3, m0, {2, 3}), Left(m2, 8), {6, 7}), <<3, 1, 0, 2>>),
     Shuf(Blend(Blend(m0, m1, {0, 1, 2, 3}), m3, {6, 7}), <<2, 1, 0, 3>>),
     Lo64(Hi32(m1, m2), Lo32(m0, m2)) >>,
  << Shuf(Blend(Lo64(m1, m2), Hi64(m0, m2), {0, 1, 4, 5}), <<3, 1, 0, 2>>),
     Blend(Hi64(m1, m3), Lo64(m0, m1), IF Bug = "blend" THEN {0, 1, 2, 3} ELSE {0, 1, 4, 5}),
     Blend(Hi64(m2, m0), Hi64(m3, m1), {0, 1, 4, 5}),
     Shuf(Blend(Left(Blend(m0, m2, {0, 1}), 8), m3, {0, 1, 2, 3}), <<3, 0, 2, 1>>) >>,
  << Lo64(Hi32(m0, m1), Lo32(m0, m2)),
     Blend(Blend(m0, m3, {0, 1}), Right(m2, 4), {2, 3, 4, 5}),
     Shuf(Blend(Blend(m1, m0, {2, 3}), Right(m3, 4), {4, 5}), <<0, 3, 2, 1>>),
     Blend(Lo64(m1, m2), Shuf(m3, <<1, 0, 2, 0>>), {0, 1, 4, 5}) >>,
  << Blend(Blend(m0, m3, {0, 1, 4, 5}), Left(m1, 12), {6, 7}),
     Shuf(Blend(Blend(m3, m2, {4, 5}), Right(m1, 4), {0, 1}), <<0, 3, 1, 2>>),
     Shuf(Blend(Lo64(m0, m2), Right(m1, 4), {2, 3}), <<0, 1, 3, 2>>),
     Shuf(Hi64(m0, Hi32(m1, m2)), IF Bug = "shuffle" THEN <<3, 0, 1, 2>> ELSE <<2, 1, 0, 3>>) >>,
  << Shuf(Blend(Hi32(m0, m1), m3, {0, 1, 2, 3}), <<1, 3, 0, 2>>),
     Shuf(Blend(Blend(m2, m3, {4, 5}), Right(m0, 4), {0, 1}), <<3, 2, 0, 1>>),
     Shuf(Blend(Hi64(m0, m3), Lo64(m1, m2), {2, 3, 4, 5}), <<1, 3, 2, 0>>),
     Lo64(Lo32(m0, m1), Hi32(m1, m2)) >>,
  << (IF Bug = "halves" THEN ShufHi(Blend(Lo64(Hi32(m1, m3), m0), m2, {6, 7}), <<3, 2, 1, 0>>) ELSE ShufHi(Blend(Lo64(Hi32(m1, m3), m0), m2, {6, 7}), <<2, 3, 0, 1>>)),
     Shuf(Blend(m2, Hi32(m0, m3), {4, 5, 6, 7}), <<3, 1, 2, 0>>),
     Blend(Left(Blend(m2, m0, {2, 3}), 4), m3, {0, 1, 2, 3}),
     Shuf(Blend(m1, m0, {4, 5}), <<2, 3, 0, 1>>) >>,
  << Shuf(Blend(Blend(m1, m2, {4, 5}), Blend(m0, m2, {0, 1}), {0, 1, 2, 3}), <<2, 0, 3, 1>>),
     Shuf(Blend(m1, Left(m0, 4), {6, 7}), <<3, 0, 2, 1>>),
     Shuf(Hi64(Hi32(m0, m3), Lo32(m2, m3)), <<1, 2, 0, 3>>),
     Shuf(Blend(Blend(m3, m2, {6, 7}), Lo32(m0, m3), {0, 1, 2, 3}), <<3, 2, 1, 0>>) >> >>
Halves(i) == << <<i, "lo">>, <<i, "hi">> >>
Loaded == TLCEval(LET m(j) == Words(Halves(4 * j), Halves(4 * j + 1), Halves(4 * j + 2), Halves(4 * j + 3))
          IN  Gather(m(0), m(1), m(2), m(3)))
(* rows of four whole words *)
Rot(row, n) == [i \in 1..4 |-> row[1 + ((i - 1 + n) % 4)]]
Diagonalize(v) == << v[1], Rot(v[2], 1), Rot(v[3], 2), Rot(v[4], 3) >>
Undiagonalize(v) == IF Bug = "undiagonalize" THEN Diagonalize(v) ELSE << v[1], Rot(v[2], 3), Rot(v[3], 2), Rot(v[4], 1) >>

---------------------------------------------------------------------------
(* Transpositions; a vector of N words, word i of it v[i + 1]              *)
Unpack32(u, v, hi) ==        \* within each half of 4 words
  FlattenSeq([h \in 1..(Len(u) \div 4) |-> LET o == 4 * (h - 1) + (IF hi THEN 2 ELSE 0) IN <<u[o + 1], v[o + 1], u[o + 2], v[o + 2]>>])
Unpack64(u, v, hi) ==
  FlattenSeq([h \in 1..(Len(u) \div 4) |-> LET o == 4 * (h - 1) + (IF hi THEN 2 ELSE 0) IN <<u[o + 1], u[o + 2], v[o + 1], v[o + 2]>>])
Permute(u, v, hi) == IF hi THEN SubSeq(u, 5, 8) \o SubSeq(v, 5, 8) ELSE SubSeq(u, 1, 4) \o SubSeq(v, 1, 4)
Quad(a, b, c, d) ==          \* four vectors: words 0, 1, 2, 3 (and, of eight, 4, 5, 6, 7 in the upper halves)
  LET ab01 == Unpack32(a, b, FALSE)  ab23 == Unpack32(a, b, TRUE)
      cd01 == Unpack32(c, d, FALSE)  cd23 == Unpack32(c, d, TRUE)
  IN  << Unpack64(ab01, cd01, FALSE), Unpack64(ab01, cd01, TRUE), Unpack64(ab23, cd23, Bug = "unpack"), Unpack64(ab23, cd23, TRUE) >>
Transpose4(x) == Quad(x[1], x[2], x[3], x[4])
Transpose8(x) ==
  LET p == Quad(x[1], x[2], x[3], x[4])  q == Quad(x[5], x[6], x[7], x[8])
  IN  [i \in 1..8 |-> IF i <= 4 THEN Permute(p[i], q[i], Bug = "permute") ELSE Permute(p[i - 4], q[i - 4], Bug # "permute")]

Forms == {"one", "four", "eight"}
Lanes(f) == CASE f = "one" -> 1 [] f = "four" -> 4 [] f = "eight" -> 8
(* words from..from+n-1 of each lane's object `what`, lane by lane         *)
Rows(f, what, from, n) == [l \in 1..Lanes(f) |-> [i \in 1..n |-> <<what, l, from + i - 1>>]]
Transposed(f, what, words) ==
  IF f = "four" THEN FlattenSeq([g \in 1..(words \div 4) |-> Transpose4(Rows(f, what, 4 * (g - 1), 4))])
  ELSE FlattenSeq([g \in 1..(words \div 8) |-> Transpose8(Rows(f, what, IF Bug = "back" THEN (8 * (g - 1) + 8) % words ELSE 8 * (g - 1), 8))])
Msg(f) == TLCEval(Transposed(f, "m", 16))

---------------------------------------------------------------------------
VARIABLES form,
          v,        \* one: four rows of words; else: sixteen vectors
          r, step,  \* round 0..9; step 1: columns x, 2: columns y, 3: diagonals x, 4: diagonals y
          mixed     \* what the last step mixed: a set of <<lane, a, b, c, d, m>> (m: a message word)
vars == <<form, v, r, step, mixed>>

Init == /\ form \in Forms
        /\ v = IF form = "one" THEN [i \in 1..4 |-> [j \in 1..4 |-> 4 * (i - 1) + j - 1]]
               ELSE Transposed(form, "h", 8) \o [i \in 1..8 |-> [l \in 1..Lanes(form) |-> <<"h", l, 7 + i>>]]
        /\ r = 0 /\ step = 1 /\ mixed = {}

(* which vectors the step mixes, as the code lists them                    *)
Cols == << <<0, 4, 8, 12>>, <<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>> >>
Diags == << <<0, 5, 10, 15>>, <<1, 6, 11, 12>>, <<2, 7, 8, IF Bug = "diagonal" THEN 14 ELSE 13>>, <<3, 4, 9, 14>> >>
Places == IF step <= 2 THEN Cols ELSE Diags
MsgAt(q) == SIGMA[r + 1][8 * (IF step <= 2 THEN 0 ELSE 1) + 2 * (q - 1) + (IF step % 2 = 1 THEN 1 ELSE 2)]
One == /\ mixed' = { LET b == Loaded[r + 1][step] IN <<1, v[1][i], v[2][i], v[3][i], v[4][i], Word(b, i - 1)>> : i \in 1..4 }
       /\ v' = CASE step = 2 -> Diagonalize(v) [] step = 4 -> Undiagonalize(v) [] OTHER -> v
Many == /\ mixed' = { LET p == Places[q] IN
                        <<v[p[1] + 1][l], v[p[2] + 1][l], v[p[3] + 1][l], v[p[4] + 1][l], Msg(form)[MsgAt(q) + 1][l]>> : q \in 1..4, l \in 1..Lanes(form) }
        /\ v' = v
Next == /\ r < 10
        /\ IF form = "one" THEN One ELSE Many
        /\ step' = 1 + (step % 4) /\ r' = (IF step = 4 THEN r + 1 ELSE r) /\ form' = form
Spec == Init /\ [][Next]_vars

(* RFC 7693: what the step before this state had to mix                    *)
R0 == IF step = 1 THEN r - 1 ELSE r
S0 == IF step = 1 THEN 4 ELSE step - 1
Want == [q \in 1..4 |-> LET p == (IF S0 <= 2 THEN Cols ELSE << <<0, 5, 10, 15>>, <<1, 6, 11, 12>>, <<2, 7, 8, 13>>, <<3, 4, 9, 14>> >>)[q]
                        IN  <<p, SIGMA[R0 + 1][8 * (IF S0 <= 2 THEN 0 ELSE 1) + 2 * (q - 1) + (IF S0 % 2 = 1 THEN 1 ELSE 2)]>>]
Mixed ==
  mixed # {} =>
    mixed = IF form = "one" THEN { <<1, Want[q][1][1], Want[q][1][2], Want[q][1][3], Want[q][1][4], Halves(Want[q][2])>> : q \in 1..4 }
            ELSE { <<<<"h", l, Want[q][1][1]>>, <<"h", l, Want[q][1][2]>>, <<"h", l, Want[q][1][3]>>, <<"h", l, Want[q][1][4]>>, <<"m", l, Want[q][2]>>>> :
                     q \in 1..4, l \in 1..Lanes(form) }
Done ==
  r = 10 => IF form = "one" THEN v = [i \in 1..4 |-> [j \in 1..4 |-> 4 * (i - 1) + j - 1]]
            ELSE LET out == IF form = "four" THEN << Transpose4(SubSeq(v, 1, 4)), Transpose4(SubSeq(v, 5, 8)) >> ELSE << Transpose8(SubSeq(v, 1, 8)) >>
                 IN  \A l \in 1..Lanes(form) : FlattenSeq([g \in 1..Len(out) |-> out[g][l]]) = [i \in 1..8 |-> <<"h", l, i - 1>>]
=============================================================================
