------------------------------- MODULE GenFlag -------------------------------
(***************************************************************************)
(* Last-node flags in every lane of the multi-way functions, set through   *)
(* the parameters or on the hashers, and in single hashers.                *)
(***************************************************************************)
EXTENDS GenLib

I8 == <<1, 2, 3, 4, 5, 6, 7, 8>>
Id(c, i) == c \o ToString(i)
Ids(c) == [i \in 1..8 |-> Id(c, i)]
Each8(F(_)) == FlattenSeq([i \in 1..8 |-> F(i)])
In(S, i) == N64(IF i \in S THEN 1 ELSE 0)

Ps(S) == Each8(LAMBDA i : << oPNew(Id("p", i)), oSet(Id("p", i), "last_node", In(S, i)) >>)

(* lens: per lane; finalize8 with flags from parameters; then flipped on   *)
(* the hashers; then set back                                              *)
F8(S, v, lens) ==
  Emit(Ps(S) \o Each8(LAMBDA i : << oSt(Id("p", i), Id("a", i)) >>)
       \o << oU8(Ids("a"), [i \in 1..8 |-> <<10 + i, 0, lens[i]>>]), oF8(Ids("a")) >>
       \o Each8(LAMBDA i : IF (v + i) % 3 = 0 THEN << oLn(Id("a", i), i \notin S) >> ELSE <<>>)
       \o << oF8(Ids("a")) >>
       \o Each8(LAMBDA i : << oFin(Id("a", i)), oLn(Id("a", i), i \in S) >>)
       \o << oU8(Ids("a"), [i \in 1..8 |-> <<10 + i, lens[i], 65 * (v % 3)>>]), oF8(Ids("a")) >>)
H8(S, lens) ==
  Emit(Ps(S) \o << oH8(Ids("p"), [i \in 1..8 |-> <<10 + i, 0, lens[i]>>]) >>
       \o Each8(LAMBDA i : << oSet(Id("p", i), "last_node", In(S, 9 - i)) >>)
       \o << oH8(Ids("p"), [i \in 1..8 |-> <<10 + i, 0, lens[i]>>]) >>)
Same(n) == [i \in 1..8 |-> n]
Mixed(v) == [i \in 1..8 |-> <<0, 1, 63, 64, 65, 128, 129, 200>>[1 + ((i * 3 + v) % 8)]]

Lanes ==
  /\ \A S \in SUBSET (1..8) : LET v == Cardinality(S) + (CHOOSE i \in 0..8 : i = 0 \/ i \in S) IN
       /\ F8(S, v, Same(<<0, 64, 65, 129>>[1 + (v % 4)]))
       /\ F8(S, v + 1, Mixed(v))
       /\ H8(S, Same(64)) /\ H8(S, Same(128)) /\ H8(S, Same(<<0, 1, 65, 192>>[1 + (v % 4)])) /\ H8(S, Mixed(v))
Exact == \A n \in {4, 8} : \A len \in {64, 128, 192} : \A k \in {0, 5} : \A b \in {0, 1} :
  Emit(<< oPNew("p"), oSet("p", "key", Bytes(3, k)), oSet("p", "last_node", N64(b)), oExact("p", [i \in 1..n |-> <<10 + i, 0, len>>]),
          oSet("p", "last_node", N64(1 - b)), oExact("p", [i \in 1..n |-> <<10 + i, 0, len>>]), oSet("p", "last_node", N64(b)),
          oExact("p", [i \in 1..n |-> <<10 + i, 0, len>>]) >>)

(* The flag through parameters equals the flag through the hasher, at      *)
(* every moment it can be set; clones carry it; BLAKE2s parameters of all  *)
(* kinds.                                                                  *)
Moments == \A v \in 1..T(150, 1500) : \A b \in BOOLEAN :
  LET n1 == Rnd(v, 140)  n2 == Rnd(v + 9, 140)
      ps == << oPNew("p") >> \o (IF v % 3 = 0 THEN <<>> ELSE RndPlain("p", v)) \o (IF v % 2 = 0 THEN RndKey("p", v) ELSE <<>>)
      ln(x) == << oLn(x, b) >>
  IN  Emit(ps \o << oSet("p", "last_node", N64(IF b THEN 1 ELSE 0)), oSt("p", "r"), oUpd("r", 3, 0, n1, 0), oFin("r"), oUpd("r", 3, n1, n2, 0), oFin("r"),
                    oSet("p", "last_node", N64(IF b THEN 0 ELSE 1)) >>
           \o << oSt("p", "s") >> \o ln("s") \o << oUpd("s", 3, 0, n1, 0), oFin("s"), oUpd("s", 3, n1, n2, 0), oFin("s") >>
           \o << oSt("p", "s"), oUpd("s", 3, 0, n1, 0) >> \o ln("s") \o << oFin("s"), oClone("s", "c"), oUpd("s", 3, n1, n2, 0), oFin("s"), oFin("c"), oLn("s", ~b), oFin("c"), oFin("s") >>
           \o << oSt("p", "s"), oUpd("s", 3, 0, n1, 0), oFin("s"), oUpd("s", 3, n1, n2, 0), oFin("s") >> \o ln("s") \o << oFin("s"), oCnt("s"), oLn("s", ~b), oFin("s"), oCnt("s") >>)

ASSUME Lanes /\ Exact /\ Moments
=============================================================================
