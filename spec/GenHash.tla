------------------------------- MODULE GenHash -------------------------------
(***************************************************************************)
(* Hash values: accessors, printing, and comparison with each other and    *)
(* with slices.  Short hashes (one and two bytes) are taken in numbers, so *)
(* that hashes with equal visible and different hidden bytes, and hashes   *)
(* that are prefixes of others, occur.                                     *)
(***************************************************************************)
EXTENDS GenLib

Id(c, i) == c \o ToString(i)
Mk(x, hl, k, n) == << oPNew("p"), oSet("p", "hash_length", N64(hl)), oSt("p", "s"), oUpd("s", k, 0, n, 0), oHash("s", x) >>
MkSp(x, hl, k, n) == << oQNew("q"), oSet("q", "hash_length", N64(hl)), oTSt("q", "t"), oUpd("t", k, 0, n, 0), oHash("t", x) >>

Zeros(n) == [i \in 1..n |-> 0]

(* one hash value against every kind of slice *)
Slices(x, hl) ==
  << oHGet(x), oHEqD(x, "copy", 0), oHEq(x, x), oHEqS(x, <<>>), oHEqS(x, Zeros(hl)), oHEqS(x, Zeros(32)), oHEqS(x, Bytes(1, hl)), oHEqS(x, Bytes(2, 33)),
     oHEqS(x, Zeros(256 + hl)), oHEqS(x, Bytes(3, 64)) >>
  \o [i \in 1..(8 * hl) |-> oHEqD(x, "flip", i - 1)]
  \o [i \in 1..hl |-> oHEqD(x, "prefix", i - 1)]
  \o << oHEqD(x, "extend", 0), oHEqD(x, "extend", 1), oHEqD(x, "extend", 255) >>
Single == \A hl \in 1..32 : \A n \in 1..T(2, 20) :
  /\ Emit(Mk("h", hl, 2 + n, 7 * n) \o Slices("h", hl) \o << oClone("h", "c"), oHEq("h", "c"), oHEq("c", "h"), oDrop("h") >> \o Slices("c", hl))
  /\ Emit(MkSp("h", hl, 2 + n, 7 * n) \o Slices("h", hl))
  (* a digest containing small bytes and all nibbles, whatever it is *)
  /\ Emit(FlattenSeq([j \in 1..8 |-> Mk("h", hl, 40 + 8 * n + j, j) \o << oHGet("h") >>]))

(* every pair among a set of hashes of given lengths *)
AllPairs(xs) == FlattenSeq([i \in DOMAIN xs |-> [j \in DOMAIN xs |-> oHEq(xs[i], xs[j])]])
Crowd(m, hl(_), k0) ==
  LET xs == [i \in 1..m |-> Id("h", i)]
  IN  Emit(FlattenSeq([i \in 1..m |-> Mk(xs[i], hl(i), k0 + i, i % 70)]) \o AllPairs(xs) \o FlattenSeq([i \in 1..m |-> << oHGet(xs[i]) >>]))
Crowds ==
  /\ \A g \in 1..T(4, 30) : Crowd(48, LAMBDA i : 1, 100 * g)
  /\ \A g \in 1..T(4, 30) : Crowd(48, LAMBDA i : 1 + (i % 2), 100 * g)
  /\ Crowd(32, LAMBDA i : i, 3)
  /\ Crowd(32, LAMBDA i : 33 - i, 50)
  /\ Crowd(24, LAMBDA i : 32, 60)

(* equal digests reached in different ways are equal *)
Same == \A n \in {0, 1, 64, 65, 200} : \A hl \in {1, 7, 16, 32} :
  Emit(Mk("a", hl, 5, n) \o Mk("b", hl, 5, n) \o << oHash("s", "c") >>
       \o << oHEq("a", "b"), oHEq("b", "c"), oHEq("a", "c"), oLn("s", TRUE), oHash("s", "d"), oHEq("a", "d"), oLn("s", FALSE), oHash("s", "f"), oHEq("a", "f") >>)

ASSUME Single /\ Crowds /\ Same
=============================================================================
