------------------------------- MODULE GenIso --------------------------------
(***************************************************************************)
(* Independence of hashers and builders.  Every script first runs each     *)
(* object's own program alone, then on new objects the same programs       *)
(* interleaved; digests and counts must not differ.                        *)
(*   Pairs : all interleavings of two programs of three steps, for every   *)
(*           relation between the two objects                              *)
(*   Walks : random interleavings of four objects with longer programs     *)
(*   Threads : the programs run by concurrent threads                      *)
(* The types can be moved to, and shared with, threads at all ("auto").    *)
(***************************************************************************)
EXTENDS GenLib

(* FOCUS "small": concurrent calls only, with short inputs, for an         *)
(* interpreter that reports data races.                                    *)
Small == IOEnv.FOCUS = "small"

(* A program step: <<"u", k, len>>, <<"f">>, <<"l", b>>, <<"c">>           *)
U(k, n) == <<"u", k, n>>
F == <<"f">>
L(b) == <<"l", b>>
Do(x, off, s) ==     \* off: content offset, so that equal programs of two objects hash different messages
  CASE s[1] = "u" -> << oUpd(x, s[2], off, s[3], (s[3] + off) % 9) >>
    [] s[1] = "f" -> << oFin(x), oCnt(x) >>
    [] s[1] = "l" -> << oLn(x, s[2]) >>
Run(x, off, p) == FlattenSeq([i \in DOMAIN p |-> Do(x, off, p[i])])
NoFlag(p) == SelectSeq(p, LAMBDA s : s[1] # "l")

Progs == << <<U(3, 64), U(4, 1), F>>, <<U(3, 65), F, U(4, 64)>>, <<F, U(5, 10), U(6, 128)>>, <<U(3, 1), L(TRUE), U(4, 63)>>,
            <<U(7, 130), F, U(7, 33)>>, <<L(TRUE), U(8, 64), L(FALSE)>>, <<U(2, 128), U(2, 129), F>> >>
SpProgs == << <<U(3, 512), U(4, 513), F>>, <<U(3, 1024), F, U(4, 1)>>, <<U(3, 1025), U(5, 1000), F>>, <<F, U(6, 64), U(6, 961)>> >>

(* interleavings of 3 and 3 steps: the positions of the first's steps      *)
Orders3 == { S \in SUBSET (1..6) : Cardinality(S) = 3 }
Merge(a, b, S) ==    \* sequence of <<who, index>>
  [i \in 1..6 |-> LET na == Cardinality({j \in S : j < i}) IN IF i \in S THEN <<1, na + 1>> ELSE <<2, i - na>>]
Inter(x, ox, a, y, oy, b, S) ==
  FlattenSeq([i \in 1..6 |-> LET m == Merge(a, b, S)[i] IN IF m[1] = 1 THEN Do(x, ox, a[m[2]]) ELSE Do(y, oy, b[m[2]])])
End(x, y) == << oCnt(x), oFin(x), oFin(y), oCnt(y), oFin(x) >>

KeyP == << oPNew("p"), oSet("p", "key", Bytes(3, 9)) >>
Rel(r) ==     \* how x and y (and the lone u, v) come into being
  CASE r = "new"   -> << oSNew("x"), oSNew("y"), oSNew("u"), oSNew("v") >>
    [] r = "same builder" -> KeyP \o << oSt("p", "x"), oSt("p", "y"), oSt("p", "u"), oSt("p", "v") >>
    [] r = "clone" -> << oSNew("x"), oUpd("x", 9, 0, 70, 0), oClone("x", "y"), oSNew("u"), oUpd("u", 9, 0, 70, 0), oSNew("v"), oUpd("v", 9, 0, 70, 0) >>
    [] r = "keyed clone" -> KeyP \o << oSt("p", "x"), oFin("x"), oClone("x", "y"), oSt("p", "u"), oSt("p", "v") >>
    [] r = "sp"    -> << oQNew("p"), oSet("p", "key", Bytes(3, 9)), oTSt("p", "x"), oTSt("p", "y"), oTSt("p", "u"), oTSt("p", "v") >>
    [] r = "mixed" -> << oTNew("x"), oSNew("y"), oTNew("u"), oSNew("v") >>

PairScript(r, a, b, S) ==
  Emit(Rel(r) \o Run("u", 0, a) \o << oFin("u"), oCnt("u") >> \o Run("v", 77, b) \o << oFin("v"), oCnt("v") >>
       \o Inter("x", 0, a, "y", 77, b, S) \o End("x", "y")
       \o << oDrop("x"), oUpd("y", 9, 0, 64, 0), oFin("y"), oUpd("v", 9, 0, 64, 0), oFin("v") >>)

Pairs(go) ==
  /\ \A r \in {"new", "same builder", "clone", "keyed clone"} : \A a, b \in DOMAIN Progs : \A S \in Orders3 :
       IF Thorough \/ (a + b + Cardinality({i \in S : i > 3})) % 2 = 0 THEN PairScript(r, Progs[a], Progs[b], S) ELSE TRUE
  /\ \A a, b \in DOMAIN SpProgs : \A S \in Orders3 : PairScript("sp", SpProgs[a], SpProgs[b], S)
  /\ \A a \in DOMAIN SpProgs : \A b \in DOMAIN Progs : \A S \in Orders3 :
       IF Thorough \/ (a + b) % 3 = 0 THEN PairScript("mixed", SpProgs[a], Progs[b], S) ELSE TRUE

(* Random programs; objects 1..4: two hashers of one builder, a clone of   *)
(* the first made midway, and a BLAKE2sp hasher.                           *)
Sizes == <<0, 1, 13, 63, 64, 65, 127, 128, 129, 200, 513, 1025>>
RProg(i, n) == [j \in 1..n |-> LET c == Rnd(i * 40 + j, 8) IN
  IF c = 0 THEN F ELSE IF c = 1 THEN L(Rnd(i + j, 2) = 0) ELSE U(3 + Rnd(i + 5 * j, 20), Sizes[1 + Rnd(i * 41 + j, 12)])]
RandMerge(i, ps) ==    \* a random interleaving of programs: sequence of <<who, step>>
  LET total == FoldLeft(LAMBDA a, p : a + Len(p), 0, ps)
      step(s, j) == LET live == SelectSeq([k \in DOMAIN ps |-> k], LAMBDA k : s.pos[k] < Len(ps[k]))
                        k == live[1 + Rnd(i * 50 + j, Len(live))]
                    IN  [pos |-> [s.pos EXCEPT ![k] = @ + 1], out |-> Append(s.out, <<k, s.pos[k] + 1>>)]
  IN  FoldLeft(step, [pos |-> [k \in DOMAIN ps |-> 0], out |-> <<>>], [j \in 1..total |-> j]).out
Walk(i) ==
  LET ps == << RProg(4 * i, 6), RProg(4 * i + 1, 6), RProg(4 * i + 2, 5), NoFlag(RProg(4 * i + 3, 6)) >>
      mk(s, c) == IF c % 2 = 0 THEN << oSt("p", s) >> ELSE << oSNew(s) >>
      head == RProg(7 * i + 3, 2)
      lone == << oPNew("p") >> \o RndKey("p", i) \o RndPlain("p", i) \o << oQNew("q") >> \o RndKey("q", i + 1)
              \o mk("l1", i) \o Run("l1", 1, head) \o Run("l1", 1, ps[1]) \o << oFin("l1"), oCnt("l1") >>
              \o mk("l2", i + 1) \o Run("l2", 2, ps[2]) \o << oFin("l2"), oCnt("l2") >>
              \o mk("l3", i) \o Run("l3", 1, head) \o Run("l3", 3, ps[3]) \o << oFin("l3"), oCnt("l3") >>
              \o << oTSt("q", "l4") >> \o Run("l4", 4, ps[4]) \o << oFin("l4"), oCnt("l4") >>
      x(k) == <<"x1", "x2", "x3", "x4">>[k]
      m == RandMerge(i, ps)
  IN  Emit(lone \o mk("x1", i) \o mk("x2", i + 1) \o Run("x1", 1, head) \o << oClone("x1", "x3"), oTSt("q", "x4"), oClone("p", "p2"),
                                                                              oSet("p2", "key", Bytes(1, 3)), oSet("p", "hash_length", N64(9)) >>
           \o FlattenSeq([j \in DOMAIN m |-> Do(x(m[j][1]), m[j][1], ps[m[j][1]][m[j][2]])])
           \o FlattenSeq([k \in 1..4 |-> << oFin(x(k)), oCnt(x(k)) >>])
           \o FlattenSeq([k \in 1..4 |-> << oDrop(x(5 - k)) >> \o (IF k < 4 THEN << oFin(x(4 - k)) >> ELSE <<>>)]))
Walks(go) == \A i \in 1..T(500, 6000) : Walk(i)

(* Threads: up to eight hashers at once, each fed its pieces by its own    *)
(* thread; repeated, after clones, and compared with the same done alone.  *)
Thread(i) ==
  LET n == 2 + Rnd(i, 7)
      ins(k) == [j \in 1..(3 + Rnd(i + k, 5)) |-> <<20 + k, 1000 * j, (Rnd(i * 8 + k * 9 + j, 5)) * 700 + Rnd(i + k + j, 300)>>]
      mk(x, k) == CASE (i + k) % 4 = 0 -> << oSNew(x) >> [] (i + k) % 4 = 1 -> << oTNew(x) >>
                    [] (i + k) % 4 = 2 -> << oSt("p", x) >> [] OTHER -> << oTSt("q", x) >>
      id(c, k) == c \o ToString(k)
      jobs(c) == [k \in 1..n |-> [s |-> id(c, k), in |-> ins(k)]]
      alone(k) == mk(id("l", k), k) \o [j \in DOMAIN ins(k) |-> oUpd(id("l", k), ins(k)[j][1], ins(k)[j][2], ins(k)[j][3], (j - 1) % 3)] \o << oFin(id("l", k)), oCnt(id("l", k)) >>
  IN  Emit(<< oPNew("p") >> \o RndKey("p", i) \o << oQNew("q") >> \o RndKey("q", i + 1)
           \o FlattenSeq([k \in 1..n |-> alone(k)])
           \o FlattenSeq([k \in 1..n |-> mk(id("x", k), k)]) \o << oPar(jobs("x")) >>
           \o FlattenSeq([k \in 1..n |-> << oFin(id("x", k)), oCnt(id("x", k)) >>])
           \o FlattenSeq([k \in 1..n |-> mk(id("y", k), k)]) \o << oPar(jobs("y")), oPar(jobs("x")), oPar(jobs("l")) >>)
Threads(go) == \A i \in 1..T(200, 2000) : Thread(i)

(* Every kind of call by threads at once, each on objects of its own; the  *)
(* calls of each were made before by one thread alone.                     *)
Sz(j, m) == LET c == <<0, 1, 63, 64, 65, 100, 128, 129, 200, 513, 1100, 1600>>[1 + Rnd(j, IF Small THEN 9 ELSE 12)] IN IF m = 0 THEN c ELSE 64 * (1 + ((c \div 64) % 6))
Calls(c, i) ==
  LET x(n) == c \o n
      kind == i % 9
      seg(j) == <<2 + Rnd(i + j, 30), Rnd(i + 2 * j, 99), Sz(i * 7 + j, 0)>>
      sseg(j) == <<2 + Rnd(i + j, 30), j, 2 * Sz(i * 7 + j, 0)>>
      Ps == << oPNew(x("p")) >> \o RndPlain(x("p"), i)
      eight(n) == [k \in 1..8 |-> x(n \o ToString(k))]
      Up(o, g, via) == oUpd(x(o), g[1], g[2], g[3], via)
  IN CASE kind = 0 -> Ps \o << oSet(x("p"), "key", RndBytes(i, 1 + (i % 32))), oSt(x("p"), x("s")), Up("s", seg(1), 0), oFin(x("s")), Up("s", seg(2), 1), oCnt(x("s")), oFin(x("s")) >>
       [] kind = 1 -> << oQNew(x("q")), oSet(x("q"), "key", RndBytes(i, 1 + (i % 32))), oTSt(x("q"), x("t")), Up("t", sseg(1), 0), Up("t", sseg(2), 2), oFin(x("t")), Up("t", sseg(3), 1), oCnt(x("t")), oFin(x("t")) >>
       [] kind = 2 -> Ps \o << oH8([k \in 1..8 |-> x("p")], [k \in 1..8 |-> seg(k)]), oH8([k \in 1..8 |-> x("p")], [k \in 1..8 |-> <<2 + k, i, Sz(i, 1)>>]) >>
       [] kind = 3 -> Ps \o << oSet(x("p"), "key", RndBytes(i, i % 33)), oExact(x("p"), [k \in 1..8 |-> <<2 + k, i, Sz(i, 1)>>]), oExact(x("p"), [k \in 1..8 |-> <<30 + k, i, Sz(i + 1, 1)>>]) >>
       [] kind = 4 -> Ps \o << oSet(x("p"), "key", RndBytes(i, i % 33)), oExact(x("p"), [k \in 1..4 |-> <<2 + k, i, Sz(i, 1)>>]), oExact(x("p"), [k \in 1..4 |-> <<30 + k, i, Sz(i + 1, 1)>>]) >>
       [] kind = 5 -> Ps \o [k \in 1..8 |-> oSt(x("p"), eight("s")[k])] \o << oU8(eight("s"), [k \in 1..8 |-> seg(k)]), oU8(eight("s"), [k \in 1..8 |-> seg(k + 8)]), oF8(eight("s")), oF8(eight("s")), oCnt(x("s3")) >>
       [] kind = 6 -> << oOne(2 + (i % 30), 0, Sz(i, 0)), oSOne(2 + (i % 29), 0, 2 * Sz(i + 1, 0)), oOne(3 + (i % 30), 0, Sz(i + 2, 0)) >>
       [] kind = 7 -> Ps \o << oClone(x("p"), x("o")), oSet(x("p"), "salt", Bytes(i, 3)), oSt(x("o"), x("s")), Up("s", seg(1), 0), oClone(x("s"), x("c")), Up("c", seg(2), 0), oFin(x("s")), oFin(x("c")), oLn(x("c"), TRUE), oFin(x("c")) >>
       [] kind = 8 -> << oSNew(x("s")), oForce(x("s")), Up("s", seg(1), 0), oFin(x("s")), oHash(x("s"), x("h")), oHGet(x("h")), oHEq(x("h"), x("h")), oHEqD(x("h"), "flip", i) >>
Concurrent(i) ==
  LET n == IF Small THEN 2 + Rnd(i, 2) ELSE 3 + Rnd(i, 6)
      (* the same kind of call on all threads, or a mixture *)
      job(k) == IF i % 3 = 0 THEN i + 7 * k ELSE (i % 9) + 9 * (7 * k + Rnd(i, 50))
      rounds(c, k) == Calls(c \o ToString(k), job(k)) \o (IF Small THEN <<>> ELSE Calls(c \o ToString(k) \o "b", job(k)))
  IN  Emit(FlattenSeq([k \in 1..n |-> rounds("l", k)]) \o oThreads([k \in 1..n |-> rounds("x", k)])
           \o (IF Small THEN <<>> ELSE oThreads([k \in 1..n |-> rounds("y", k)])))
ConcurrentAll(go) == \A i \in 1..(IF Small THEN T(27, 216) ELSE T(450, 4500)) : Concurrent(i)

ASSUME IF Small THEN ConcurrentAll(TRUE) ELSE Emit(<< [op |-> "auto"] >>) /\ Pairs(TRUE) /\ Walks(TRUE) /\ Threads(TRUE) /\ ConcurrentAll(TRUE)
=============================================================================
