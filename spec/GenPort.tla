------------------------------- MODULE GenPort --------------------------------
(***************************************************************************)
(* One of everything, with short inputs: every parameter, every entry      *)
(* point, every arm of the buffering, every refusal.  For interpreted      *)
(* executions (other targets, watched memory), which are too slow for the  *)
(* full covers.  All values are different in every byte, so that a wrong   *)
(* byte order or a lost half shows.                                        *)
(***************************************************************************)
EXTENDS GenLib

Run(sets, m) == Emit(<< oPNew("p") >> \o sets \o << oSt("p", "s"), oFin("s"), oUpd("s", 2, 0, m, 0), oFin("s"), oCnt("s") >>)
Set(f, v) == << oSet("p", f, v) >>

Fields(go) ==
  /\ \A v \in {1, 3, 4, 5, 7, 8, 31, 32} : Run(Set("hash_length", N64(v)), v)
  /\ \A n \in {1, 5, 16, 32} : Run(Set("key", Bytes(n, n)), n)
  /\ \A f \in {"salt", "personal"} : \A n \in {1, 4, 5, 8} : Run(Set(f, Bytes(n + 4, n)), 1)
  /\ \A f \in {"fanout", "max_depth", "node_depth"} : \A v \in {2, 201} : Run(Set(f, N64(v)), 1)
  /\ \A v \in {<<0, 0, 4660, 22136>>, <<0, 0, 0, 513>>, <<0, 0, 65535, 1>>} : Run(Set("max_leaf_length", v), 1)
  /\ \A v \in {<<0, 4660, 22136, 39612>>, <<0, 0, 4660, 22136>>, <<0, 0, 0, 513>>, <<0, 1, 0, 0>>, <<0, 65535, 65535, 65535>>} : Run(Set("node_offset", v), 1)
  /\ \A v \in {1, 18, 32} : Run(Set("inner_hash_length", N64(v)), 1)
  /\ Run(Set("last_node", N64(1)), 65)
  /\ \A i \in 1..T(4, 40) : Run(RndPlain("p", i) \o RndKey("p", i), Rnd(i, 150))
  /\ \A n \in {1, 8, 32} : Emit(<< oQNew("q"), oSet("q", "hash_length", N64(n)), oSet("q", "key", Bytes(n, n)), oTSt("q", "t"), oFin("t"),
                                  oUpd("t", 2, 0, 30 * n, 0), oFin("t"), oCnt("t") >>)

Bad(go) ==
  /\ \A f \in {"hash_length", "inner_hash_length"} : \A v \in {<<0, 0, 0, 0>>, <<0, 0, 0, 33>>, <<0, 0, 0, 288>>, <<0, 0, 1, 32>>, <<0, 0, 32768, 0>>} :
       Emit(<< oPNew("p"), oSet("p", f, v), oSt("p", "s"), oFin("s"), oQNew("q") >> \o (IF f = "hash_length" THEN << oSet("q", f, v), oTSt("q", "t"), oFin("t") >> ELSE <<>>))
  /\ \A v \in {<<1, 0, 0, 0>>, <<1, 0, 0, 1>>, <<65535, 65535, 65535, 65535>>, <<256, 0, 0, 5>>} : Emit(<< oPNew("p"), oSet("p", "node_offset", v), oSt("p", "s"), oFin("s") >>)
  /\ Emit(<< oPNew("p"), oSet("p", "max_depth", N64(0)), oSt("p", "s"), oFin("s") >>)
  /\ \A f \in {"salt", "personal", "key"} : \A n \in {9, 33, 264, 288} : Emit(<< oPNew("p"), oSet("p", f, Bytes(1, n)), oSt("p", "s"), oFin("s") >>)
  /\ Emit(<< oQNew("p"), oSet("p", "key", Bytes(1, 33)), oTSt("p", "s"), oFin("s") >>)

(* cuttings: the state keeps taking input, with everything observed after  *)
RECURSIVE Feed(_, _, _, _)
Feed(x, n, ds, via) == IF ds = <<>> THEN <<>>
  ELSE << oUpd(x, 1302, n, Head(ds), via), oCnt(x), oFin(x) >> \o Feed(x, n + Head(ds), Tail(ds), (via + 1) % 9)
Cuts(go) ==
  /\ \A kk \in {0, 7} : \A ds \in { <<0, 1, 63, 1, 0, 64, 65>>, <<64, 64, 1>>, <<65, 63, 128>>, <<130, 62, 1>>, <<33, 200>> } :
       Emit((IF kk = 0 THEN << oSNew("s") >> ELSE << oPNew("p"), oSet("p", "key", Bytes(3, kk)), oSt("p", "s") >>)
            \o Feed("s", 0, ds, kk) \o << oClone("s", "c"), oUpd("s", 3, 0, 64, 0), oUpd("c", 4, 0, 1, 0), oLn("c", TRUE), oFin("s"), oFin("c"), oCnt("c") >>)
  /\ \A kk \in {0, 7} : \A ds \in { <<1, 511, 1>>, <<513, 512, 1>>, <<961, 64>>, <<100, 1400>>, <<1025>> } :
       Emit((IF kk = 0 THEN << oTNew("s") >> ELSE << oQNew("p"), oSet("p", "key", Bytes(3, kk)), oTSt("p", "s") >>) \o Feed("s", 0, ds, kk))
  /\ Emit(<< oOne(2, 0, 0), oOne(2, 0, 100), oOne(3, 1, 64), oSOne(2, 0, 0), oSOne(2, 0, 700) >>)

H8s == << <<0, 0, 0, 0, 0, 0, 0, 0>>, <<64, 64, 64, 64, 64, 64, 64, 64>>, <<65, 64, 63, 0, 1, 128, 129, 200>>, <<129, 130, 131, 132, 133, 134, 135, 192>> >>
Eight(ls, k) == [i \in 1..8 |-> <<k + i, i, ls[i]>>]
Names(c) == [i \in 1..8 |-> c \o ToString(i)]
Joint(go) ==
  /\ \A j \in 1..4 : LET ls == H8s[j] IN
       /\ Emit(<< oPNew("p0") >> \o FlattenSeq([i \in 1..8 |-> << oPNew("p" \o ToString(i)) >> \o RndPlain("p" \o ToString(i), i + 8 * j)])
               \o << oH8(Names("p"), Eight(ls, 2)), oH8([i \in 1..8 |-> "p0"], Eight(ls, 12)) >>)
       /\ Emit(FlattenSeq([i \in 1..8 |-> IF i % 3 = 0 THEN << oPNew("p"), oSet("p", "key", Bytes(i, i)), oSet("p", "last_node", N64(1)), oSt("p", "s" \o ToString(i)) >> ELSE << oSNew("s" \o ToString(i)) >>])
               \o << oU8(Names("s"), Eight(H8s[1 + (j % 4)], 2)), oU8(Names("s"), Eight(ls, 20)), oF8(Names("s")), oU8(Names("s"), Eight(H8s[1 + ((j + 1) % 4)], 2)), oF8(Names("s")) >>
               \o FlattenSeq([i \in 1..8 |-> << oCnt("s" \o ToString(i)), oFin("s" \o ToString(i)) >>]))
  /\ Emit(<< oPNew("p"), oSet("p", "key", Bytes(1, 1)), oPNew("q"), oH8([i \in 1..8 |-> IF i = 7 THEN "p" ELSE "q"], Eight(H8s[2], 2)) >>)
  /\ \A n \in {4, 8} : \A len \in {64, 192} : \A kk \in {0, 32} :
       Emit(<< oPNew("p") >> \o RndPlain("p", n + kk) \o << oSet("p", "key", Bytes(3, kk)), oExact("p", [i \in 1..n |-> <<i + 2, i, len>>]) >>)
  /\ \A n \in {4, 8} : \A ls \in { <<0, 0>>, <<63, 0>>, <<65, 0>>, <<64, 64>>, <<128, 1>> } : \A odd \in {1, 2, n} :
       Emit(<< oPNew("p"), oExact("p", [i \in 1..n |-> <<2, 0, IF i = odd THEN ls[1] + ls[2] ELSE ls[1]>>]) >>)

Hashes(go) == \A hl \in {1, 3, 8, 31, 32} :
  Emit(<< oPNew("p"), oSet("p", "hash_length", N64(hl)), oSt("p", "s"), oUpd("s", 3, 0, 9, 0), oHash("s", "h"), oHGet("h"), oHEq("h", "h"), oClone("h", "c"), oHEq("h", "c"),
          oHEqD("h", "copy", 0), oHEqD("h", "flip", 0), oHEqD("h", "flip", 8 * hl - 1), oHEqD("h", "prefix", hl - 1), oHEqD("h", "extend", 0), oHEqS("h", <<>>),
          oUpd("s", 3, 0, 1, 0), oHash("s", "g"), oHEq("g", "h"), oSNew("d"), oHash("d", "i"), oHEq("i", "h"), oHEq("h", "i") >>)

Threads(go) == Emit(<< oSNew("a"), oSNew("b"), oTNew("t"),
  oPar([i \in 1..3 |-> [s |-> <<"a", "b", "t">>[i], in |-> << <<i, 0, 64 * i>>, <<i + 5, 0, 300>>, <<2, 0, 1>> >>]]), oFin("a"), oFin("b"), oFin("t"), oCnt("t") >>)

ASSUME Fields(0) /\ Bad(0) /\ Cuts(0) /\ Joint(0) /\ Hashes(0) /\ Threads(0)
=============================================================================
