------------------------------ MODULE GenBuilder -----------------------------
(***************************************************************************)
(* Histories of parameter builders (BLAKE2s and BLAKE2sp): every ordered   *)
(* pair and triple of values of a field, every ordered pair of fields,     *)
(* random orders of all fields, reuse, cloning and change after to_state.  *)
(* The reference digests are those of fresh builders, each field set once. *)
(***************************************************************************)
EXTENDS GenLib

Fs == <<"hash_length", "key", "salt", "personal", "fanout", "max_depth", "max_leaf_length", "node_offset",
        "node_depth", "inner_hash_length", "last_node">>
F(i) == Fs[i]
(* three or four values per field: longest, shortest, default, another *)
Vals(f) ==
  CASE f = "hash_length" -> << N64(32), N64(1), N64(20) >>
    [] f = "key" -> << Bytes(1, 32), <<>>, Bytes(2, 5), Bytes(3, 31) >>
    [] f = "salt" -> << Bytes(4, 8), <<>>, Bytes(5, 3) >>
    [] f = "personal" -> << Bytes(6, 8), <<>>, Bytes(7, 5) >>
    [] f = "fanout" -> << N64(1), N64(255), N64(0) >>
    [] f = "max_depth" -> << N64(1), N64(255), N64(64) >>
    [] f = "max_leaf_length" -> << N64(0), <<0, 0, 65535, 65535>>, <<0, 0, 4096, 1>> >>
    [] f = "node_offset" -> << N64(0), <<0, 65535, 65535, 65535>>, <<0, 256, 0, 7>> >>
    [] f = "node_depth" -> << N64(0), N64(255), N64(16) >>
    [] f = "inner_hash_length" -> << N64(0), N64(32), N64(16) >>
    [] f = "last_node" -> << N64(0), N64(1) >>

Fin(p, m) == << oSt(p, "z"), oUpd("z", 2, 0, m, 0), oFin("z"), oDrop("z") >>
FinQ(p, m) == << oTSt(p, "z"), oUpd("z", 2, 0, m, 0), oFin("z"), oDrop("z") >>
(* Fresh builder holding exactly these settings (others default).          *)
RefS(sets) == Ref(<< oPNew("r") >> \o sets \o Fin("r", 65) \o << oDrop("r") >>)
RefQ(sets) == Ref(<< oQNew("r") >> \o sets \o FinQ("r", 65) \o << oDrop("r") >>)
(* a rejected call, which must leave no trace                              *)
Bad(x, f) == CASE f = "key" -> << oSet(x, f, Bytes(9, 33)) >>
               [] f \in {"salt", "personal"} -> << oSet(x, f, Bytes(9, 9)) >>
               [] f = "hash_length" -> << oSet(x, f, N64(33)) >>
               [] OTHER -> <<>>

Set(f, k) == oSet("p", f, Vals(f)[k])
SetQ(f, k) == oSet("q", f, Vals(f)[k])
At(s, x) == [s EXCEPT !.x = x]

Refs == \A i \in 1..11 : \A k \in DOMAIN Vals(F(i)) :
  /\ RefS(<< At(Set(F(i), k), "r") >>)
  /\ (IF i <= 2 THEN RefQ(<< At(Set(F(i), k), "r") >>) ELSE TRUE)

Triples ==
  \A i \in 1..11 : LET f == F(i) IN \A a, b, c \in DOMAIN Vals(f) :
    (* three settings of one field, a hasher made after each *)
    /\ Emit(<< oPNew("p"), Set(f, a), oSt("p", "s1"), Set(f, b), oSt("p", "s2"), oPNew("o"), oSet("o", "key", Bytes(8, 8)), oSet("o", "salt", Bytes(7, 7)), oCloneTo("p", "o", a % 2) >> \o Bad("p", f)
            \o << Set(f, c) >> \o Fin("p", 65)
            \o << oUpd("s2", 2, 0, 65, 0), oUpd("s1", 2, 0, 65, 1), oFin("s1"), oFin("s2") >> \o Fin("o", 65)
            \o << At(Set(f, a), "o") >> \o Fin("p", 65) \o Fin("o", 65)
            \o << oDrop("p"), oFin("s2"), oFin("s1"), oCnt("s1") >>)
    /\ IF i > 2 THEN TRUE ELSE
       Emit(<< oQNew("q"), SetQ(f, a), oTSt("q", "s1"), SetQ(f, b), oTSt("q", "s2"), oQNew("o"), oSet("o", "key", Bytes(8, 8)), oCloneTo("q", "o", a % 2) >> \o Bad("q", f)
            \o << SetQ(f, c) >> \o FinQ("q", 65)
            \o << oUpd("s2", 2, 0, 65, 0), oUpd("s1", 2, 0, 65, 1), oFin("s1"), oFin("s2") >> \o FinQ("o", 65)
            \o << At(SetQ(f, a), "o") >> \o FinQ("q", 65) \o FinQ("o", 65)
            \o << oDrop("q"), oFin("s2"), oFin("s1"), oCnt("s1") >>)

(* every ordered pair of fields, and a third call repeating the first      *)
Pairs == \A i, j \in 1..11 : IF i = j THEN TRUE ELSE
  \A a, b \in {1, 2, 3} : IF a \notin DOMAIN Vals(F(i)) \/ b \notin DOMAIN Vals(F(j)) THEN TRUE ELSE
    LET x == Set(F(i), a)  y == Set(F(j), b) IN
    Emit(<< oPNew("p"), x, y >> \o Fin("p", 65) \o << oDrop("p"), oPNew("p"), y, x >> \o Fin("p", 65)
         \o << y >> \o Fin("p", 65) \o << x >> \o Fin("p", 65))
PairsQ == \A a, b \in {1, 2, 3} :
    LET x == SetQ("hash_length", a)  y == SetQ("key", b) IN
    Emit(<< oQNew("q"), x, y >> \o FinQ("q", 65) \o << oDrop("q"), oQNew("q"), y, x >> \o FinQ("q", 65)
         \o << y >> \o FinQ("q", 65) \o << x >> \o FinQ("q", 65))

(* A random permutation of 1..n *)
Perm(i, n) == LET step(s, j) == LET k == 1 + Rnd(i * 13 + j, Len(s.left)) IN
                    [done |-> Append(s.done, s.left[k]), left |-> RemoveAt(s.left, k)]
              IN  FoldLeft(step, [done |-> <<>>, left |-> [k \in 1..n |-> k]], [k \in 1..n |-> k]).done

(* All fields: one base set of values, in two random orders, the second    *)
(* with earlier other values and rejected calls in between; then the same  *)
(* builder used again, through every consumer of a Params.                 *)
Orders == \A i \in 1..T(400, 5000) :
  LET val(f) == 1 + Rnd(i * 17 + f, Len(Vals(F(f))))
      clean == [j \in 1..11 |-> Set(F(Perm(i, 11)[j]), val(Perm(i, 11)[j]))]
      noise == FlattenSeq([j \in 1..11 |-> LET f == Perm(i + 5000, 11)[j] IN
                 << Set(F(f), 1 + Rnd(i * 19 + j, Len(Vals(F(f))))) >>
                 \o (IF Rnd(i * 23 + j, 3) = 0 THEN Bad("p", F(f)) ELSE <<>>)
                 \o (IF Rnd(i * 29 + j, 4) = 0 THEN << oSt("p", "t") >> ELSE <<>>)])
      again == [j \in 1..11 |-> Set(F(Perm(i + 9000, 11)[j]), val(Perm(i + 9000, 11)[j]))]
      eight == [j \in 1..8 |-> <<2, 0, 64>>]
      k == Rnd(i, 3)
  IN  Emit(<< oPNew("p") >> \o clean \o Fin("p", 64) \o << oClone("p", "c"), oDrop("p"), oPNew("p") >> \o noise \o again
           \o Fin("p", 64)
           \o (IF k = 0 THEN << oExact("p", eight) >> ELSE IF k = 1 THEN << oExact("p", SubSeq(eight, 1, 4)) >>
               ELSE << Set("key", 2), oH8([j \in 1..8 |-> "p"], eight), Set("key", val(2)) >>)
           \o Fin("p", 64) \o Fin("c", 64) \o << oSt("c", "u"), oDrop("c"), oUpd("u", 2, 0, 64, 1), oFin("u") >>)

ASSUME Refs /\ Triples /\ Pairs /\ PairsQ /\ Orders
=============================================================================
