------------------------------- MODULE GenFin --------------------------------
(***************************************************************************)
(* Random histories with finalizes anywhere (singly and eight together),   *)
(* each followed by the same history without them.                         *)
(***************************************************************************)
EXTENDS GenLib

Id(c, i) == c \o ToString(i)
Ids(c) == [i \in 1..8 |-> Id(c, i)]
Each8(F(_)) == FlattenSeq([i \in 1..8 |-> F(i)])
Sizes == <<0, 1, 13, 63, 64, 65, 127, 128, 129, 200>>
SpSizes == <<0, 1, 64, 448, 511, 512, 513, 960, 961, 1024, 1025, 1600>>

Mk(x, v) == << oPNew("p") >> \o (IF v % 3 = 0 THEN <<>> ELSE RndPlain("p", v)) \o (IF v % 2 = 0 THEN RndKey("p", v) ELSE <<>>) \o << oSt("p", x) >>
MkSp(x, v) == << oQNew("q") >> \o (IF v % 2 = 0 THEN RndKey("q", v) ELSE <<>>) \o << oTSt("q", x) >>

(* one hasher: n steps; with finalizes ("s"), and a twin for each prefix   *)
(* after which one was made ("r")                                          *)
Step(v, j, sp, x) ==
  LET c == Rnd(v * 16 + j, 7) IN
  IF c = 0 /\ ~sp THEN oLn(x, Rnd(v + j, 2) = 0)
  ELSE oUpd(x, 2 + Rnd(v + 5 * j, 9), 10 * j, IF sp THEN SpSizes[1 + Rnd(v * 17 + j, 12)] ELSE Sizes[1 + Rnd(v * 17 + j, 10)], 0)
Nf(v, j) == <<0, 0, 1, 2, 3>>[1 + Rnd(v * 23 + j, 5)]
One(v, sp) ==
  LET n == 4
      mk(x) == IF sp THEN MkSp(x, v) ELSE Mk(x, v)
      fins(k) == [i \in 1..k |-> oFin("s")]
      twin(m) == mk("r") \o [j \in 1..m |-> Step(v, j, sp, "r")] \o << oFin("r"), oCnt("r") >>
  IN  Emit(mk("s") \o fins(Nf(v, 0)) \o FlattenSeq([j \in 1..n |-> << Step(v, j, sp, "s") >> \o fins(Nf(v, j))]) \o << oFin("s"), oCnt("s") >>
           \o FlattenSeq([m \in 1..n |-> twin(m)]))

(* eight hashers: rounds of update8, finalize8 and single finalizes; the   *)
(* twins get the update8 calls only                                        *)
Round(v, j, c) == oU8(Ids(c), [i \in 1..8 |-> <<3 + i, 300 * j, Sizes[1 + Rnd(v * 9 + j * 11 + i, 10)]>>])
Eight(v) ==
  LET mk(c) == Each8(LAMBDA i : Mk(Id(c, i), IF v % 2 = 0 THEN v ELSE 8 * v + i))
      flag(c, j) == IF v % 5 < 2 THEN <<>> ELSE Each8(LAMBDA i : IF Rnd(v * 5 + j * 8 + i, 3) = 0 THEN << oLn(Id(c, i), Rnd(v + j * 3 + i, 2) = 0) >> ELSE <<>>)
      twin(m) == mk("b") \o FlattenSeq([j \in 1..m |-> << Round(v, j, "b") >> \o flag("b", j)]) \o << oF8(Ids("b")) >> \o Each8(LAMBDA i : << oCnt(Id("b", i)) >>)
      some(j) == FlattenSeq([i \in 1..8 |-> IF Rnd(v * 3 + j * 8 + i, 3) = 0 THEN << oFin(Id("a", i)) >> ELSE <<>>])
  IN  Emit(mk("a") \o << oF8(Ids("a")) >>
           \o FlattenSeq([j \in 1..3 |-> << Round(v, j, "a") >> \o flag("a", j) \o (IF (v + j) % 2 = 0 THEN << oF8(Ids("a")) >> \o some(j) ELSE some(j))])
           \o << oF8(Ids("a")), oF8(Ids("a")) >> \o Each8(LAMBDA i : << oCnt(Id("a", i)), oFin(Id("a", i)) >>)
           \o FlattenSeq([m \in 1..3 |-> twin(m)]))

(* Every set of flagged lanes, lanes empty or full or in between: finalized*)
(* together, again, singly, together after more input; and twins of each   *)
(* lane that never were.                                                   *)
Lane == <<0, 64, 17, 128, 0, 65, 64, 200>>
Flagged(v, S) ==
  LET n(i) == Lane[1 + ((i + v) % 8)]
      mk(x, i) == << oSNew(x), oUpd(x, 3 + i, 0, n(i), 0) >> \o (IF i \in S THEN << oLn(x, TRUE) >> ELSE <<>>)
      more(x, i) == << oUpd(x, 3 + i, 200, Lane[1 + ((i + 3 * v + 1) % 8)], 0) >>
      all == Each8(LAMBDA i : << oFin(Id("a", i)) >>)
  IN  Emit(Each8(LAMBDA i : mk(Id("a", i), i)) \o << oF8(Ids("a")), oF8(Ids("a")) >> \o all
           \o Each8(LAMBDA i : more(Id("a", i), i)) \o (IF v % 2 = 0 THEN << oF8(Ids("a")) >> \o all ELSE all \o << oF8(Ids("a")) >>)
           \o Each8(LAMBDA i : mk("z", i) \o << oFin("z"), oDrop("z") >> \o mk("z", i) \o more("z", i) \o << oFin("z"), oCnt("z"), oCnt(Id("a", i)), oDrop("z") >>))

ASSUME /\ \A v \in 1..T(400, 4000) : One(v, FALSE) /\ One(v, TRUE)
       /\ \A v \in 1..T(150, 1500) : Eight(v)
       /\ \A S \in SUBSET (1..8) : Flagged(Cardinality(S) + (IF 3 \in S THEN 1 ELSE 0), S)
=============================================================================
