------------------------------- MODULE GenLong -------------------------------
(***************************************************************************)
(* Scripts with messages around and beyond 2^31 and 2^32 bytes.  FOCUS:    *)
(*   wit : the witness chains                                              *)
(*   std, nostd : scripts (fewer for the slower configuration)             *)
(***************************************************************************)
EXTENDS LongLib

Focus == IOEnv.FOCUS
---------------------------------------------------------------------------
(* witnesses *)
Sample == [i \in 1..T(24, 200) |-> 2 * L + (i * (J \div T(26, 210))) + Rnd(i, 20000)]
Js == SetToSortSeq({0, 1, 2, 3, 4, 5, 6, 7, 8, 9} \cup ToSet(Span(L - 5, L + 8)) \cup ToSet(Span(H - 6, H + 6)) \cup ToSet(Span(J - 8, J + 14))
                   \cup {j \in ToSet(Sample) : j < J}, LAMBDA a, b : a < b)
Chains == [i \in 1..8 |-> [kind |-> "plain", k |-> K(i), l |-> 0, key |-> <<>>]]
          \o [i \in 1..8 |-> [kind |-> "leaf", k |-> KSp, l |-> i - 1, key |-> <<>>]]
          \o [i \in 1..4 |-> [kind |-> "keyed", k |-> K(i), l |-> 0, key |-> Key]]

---------------------------------------------------------------------------
(* Eight hashers brought, by threads, to 192 bytes before 2^32; clones of  *)
(* them cross the boundary in every way.                                   *)
At == Sub192(J)
Jobs == [i \in 1..8 |-> [s |-> Id("x", i), lin |->
   CASE i % 4 = 1 -> << Seg(K(i), <<0, 0>>, At) >>
     [] i % 4 = 2 -> << Seg(K(i), <<0, 0>>, <<H, 17>>), Seg(K(i), <<H, 17>>, <<H - 4, 47>>) >>
     [] i % 4 = 3 -> << Seg(K(i), <<0, 0>>, <<1, 1>>), Seg(K(i), <<1, 1>>, <<J - 5, 63>>) >>
     [] OTHER -> << Seg(K(i), <<0, 0>>, <<J - 5, 0>>), Seg(K(i), <<J - 5, 0>>, <<2, 0>>) >>]]
Steps == <<0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320, 500>>
Cl(i, r) == << oClone(Id("x", i), r) >>
(* lane i brought pre[i] bytes further (or, if not in S, a new hasher with *)
(* pre[i] bytes), then len[i] bytes by update8                             *)
Lane0(S, i) == IF i \in S THEN At ELSE <<0, 0>>
Tandem(S, pre, len) ==
  Each8(LAMBDA i : (IF i \in S THEN Cl(i, Id("a", i)) ELSE << oSNew(Id("a", i)) >>) \o << lUpd(Id("a", i), K(i), Lane0(S, i), B(pre[i]), 0) >>)
  \o << oF8(Ids("a")), [op |-> "u8", xs |-> Ids("a"), lins |-> [i \in 1..8 |-> Seg(K(i), LAdd(Lane0(S, i), B(pre[i])), B(len[i]))]] >>
  \o Each8(LAMBDA i : << oCnt(Id("a", i)) >>) \o << oF8(Ids("a")) >> \o Each8(LAMBDA i : << oFin(Id("a", i)) >>)
C8(n) == [i \in 1..8 |-> n]
Crossing ==
  Each8(LAMBDA i : << oSNew(Id("x", i)) >>) \o << oPar(Jobs) >> \o Each8(LAMBDA i : << oCnt(Id("x", i)) >>)
  \o FlattenSeq([j \in DOMAIN Steps |-> Cl(1 + (j % 8), "c") \o Walk("c", K(1 + (j % 8)), At, << B(Steps[j]) >>, j % 4)])
  \o Cl(3, "c") \o Walk("c", K(3), At, << B(100), B(91), B(1), B(1), B(62), B(1), B(65), B(128) >>, 0)
  \o Cl(2, "c") \o << oForce("c") >> \o Walk("c", K(2), At, << B(193), B(128) >>, 0)
  \o Cl(5, "c") \o << lUpd("c", K(5), At, B(192), 0), oLn("c", TRUE), oFin("c"), oLn("c", FALSE), oFin("c"), lUpd("c", K(5), <<J, 0>>, B(33), 0),
                      oLn("c", TRUE), oFin("c"), oCnt("c") >>
  \o Tandem(1..8, C8(0), C8(320)) \o Tandem(1..8, C8(64), C8(257)) \o Tandem(1..8, C8(192), C8(192)) \o Tandem(1..8, C8(191), C8(66))
  \o Tandem(1..8, [i \in 1..8 |-> 32 * (i - 1)], C8(300)) \o Tandem(1..8, [i \in 1..8 |-> 27 * (8 - i)], [i \in 1..8 |-> 200 + 40 * i])
  \o FlattenSeq([j \in 1..8 |-> Tandem({j}, C8(64), C8(400)) \o Tandem((1..8) \ {j}, C8(100), C8(330))])
  \o FlattenSeq([v \in 1..T(12, 100) |-> Tandem({i \in 1..8 : Rnd(v * 8 + i, 2) = 0}, [i \in 1..8 |-> Rnd(v * 16 + i, 200)], [i \in 1..8 |-> Rnd(v * 16 + i + 8, 400)])])

(* one-shot and single-call inputs of more than 2^31 and 2^32 bytes        *)
OneShot == << [op |-> "one", lin |-> Seg(K(1), <<0, 0>>, LAdd(<<J, 0>>, B(65)))] >>
Half == << oSNew("s") >> \o Walk("s", K(2), <<0, 0>>, << <<H - 1, 63>>, B(1), B(1), B(64) >>, 0)
        \o Each8(LAMBDA i : << oClone("s", Id("a", i)) >>)
        \o << [op |-> "u8", xs |-> Ids("a"), lins |-> [i \in 1..8 |-> Seg(K(2), <<H + 1, 1>>, B(20 * i + 30))]], oF8(Ids("a")) >>
Writes == << oSNew("s") >> \o Walk("s", K(3), <<0, 0>>, << LAdd(<<J, 0>>, B(200)) >>, 1) \o Walk("s", K(3), LAdd(<<J, 0>>, B(200)), << B(0), B(56), B(1) >>, 2)
KeyedS == << oPNew("p"), oSet("p", "key", Key), oSt("p", "s") >>
          \o Walk("s", K(1), <<0, 0>>, << <<J - 2, 63>>, B(1), B(1), B(63), B(1), B(64) >>, 0)
(* the exact functions and hash8 *)
From0(i, n) == Seg(K(i), <<0, 0>>, n)
Exact4 == << oPNew("p"), oSet("p", "key", Key), [op |-> "exact", x |-> "p", lins |-> [i \in 1..4 |-> From0(i, <<J + 1, 0>>)]] >>
Exact8 == << oPNew("p"), oSet("p", "last_node", N64(1)), [op |-> "exact", x |-> "p", lins |-> [i \in 1..8 |-> From0(i, <<J + 2, 0>>)]] >>
Ps == Each8(LAMBDA i : << oPNew(Id("p", i)), oSet(Id("p", i), "last_node", N64(i % 2)) >>)
Hash8Even == Ps \o << [op |-> "h8", ps |-> Ids("p"), lins |-> [i \in 1..8 |-> From0(9 - i, <<J + 1, 0>>)]] >>
Hash8Odd == Ps \o << [op |-> "h8", ps |-> Ids("p"), lins |-> [i \in 1..8 |-> From0(9 - i, LAdd(<<J, 0>>, B(37 * i)))]] >>
Update8 == Each8(LAMBDA i : << oSNew(Id("a", i)), lUpd(Id("a", i), K(i), <<0, 0>>, B(9 * i), 0) >>)
           \o << [op |-> "u8", xs |-> Ids("a"), lins |-> [i \in 1..8 |-> Seg(K(i), B(9 * i), LAdd(<<J, 0>>, B(50 * i)))]] >>
           \o Each8(LAMBDA i : << oCnt(Id("a", i)) >>) \o << oF8(Ids("a")) >>

(* Past 2^33 bytes: hashers whose high counter words are 0, 1 and 2 and    *)
(* change in the middle of the same call; all of stream K(1).              *)
J2 == 2 * J
Js2 == SetToSortSeq({0, 1, 2, 3, 4, 5, 6, 7, 8, 9} \cup ToSet(Span(J2 - 8, J2 + 14)), LAMBDA a, b : a < b)
From(c) == CASE c = 0 -> <<0, 0>> [] c = 1 -> At [] c = 2 -> Sub192(J2)
Mixed(c, pre, len) ==
  Each8(LAMBDA i : (CASE c[i] = 0 -> << oSNew(Id("a", i)) >> [] c[i] = 1 -> << oClone("y", Id("a", i)) >> [] c[i] = 2 -> << oClone("z", Id("a", i)) >>)
                   \o << lUpd(Id("a", i), K(1), From(c[i]), B(pre[i]), 0) >>)
  \o << [op |-> "u8", xs |-> Ids("a"), lins |-> [i \in 1..8 |-> Seg(K(1), LAdd(From(c[i]), B(pre[i])), B(len[i]))]] >>
  \o Each8(LAMBDA i : << oCnt(Id("a", i)) >>) \o << oF8(Ids("a")) >> \o Each8(LAMBDA i : << oFin(Id("a", i)) >>)
Beyond ==
  << oSNew("y"), lUpd("y", K(1), <<0, 0>>, At, 0), oClone("y", "z"), lUpd("z", K(1), At, <<J, 0>>, 0), oCnt("z"), oFin("z") >>
  \o FlattenSeq([j \in DOMAIN Steps |-> << oClone("z", "c") >> \o Walk("c", K(1), Sub192(J2), << B(Steps[j]) >>, j % 4)])
  \o << oClone("z", "c") >> \o Walk("c", K(1), Sub192(J2), << B(100), B(91), B(1), B(1), B(62), B(1), B(65), B(128) >>, 0)
  \o << oClone("z", "c"), oForce("c") >> \o Walk("c", K(1), Sub192(J2), << B(193), B(128) >>, 0)
  \o Mixed(C8(2), C8(0), C8(320)) \o Mixed(C8(2), C8(64), C8(257))
  \o Mixed([i \in 1..8 |-> i % 3], C8(0), C8(320)) \o Mixed([i \in 1..8 |-> (i + 1) % 3], C8(100), C8(301))
  \o FlattenSeq([v \in 1..T(12, 60) |-> Mixed([i \in 1..8 |-> Rnd(v * 8 + i + 7000, 3)], [i \in 1..8 |-> Rnd(v * 16 + i + 7000, 200)],
                                            [i \in 1..8 |-> Rnd(v * 16 + i + 7008, 400)])])

(* BLAKE2sp: past 2^32 bytes in all, and past 2^32 bytes in every leaf     *)
Tree == << oTNew("t") >> \o Walk("t", KSp, <<0, 0>>, << <<J - 1, 63>>, B(1), B(1), B(511), B(512), B(513) >>, 0)
Deep == << oTNew("t"), lUpd("t", KSp, <<0, 0>>, <<J, 33>>, 0), oCnt("t"), oFin("t") >>
        \o [i \in 1..6 |-> lUpd("t", KSp, <<i * J, 33>>, <<J, 0>>, i % 2)] \o << oCnt("t"), lUpd("t", KSp, <<7 * J, 33>>, <<J - 32, 0>>, 0), oCnt("t"), oFin("t") >>
        \o Walk("t", KSp, <<8 * J - 32, 33>>, << B(991), B(512), B(500), B(12), B(1), B(32), B(1), B(511), B(512), B(1024), B(1) >>, 0)
TreeOnce == << [op |-> "sone", lin |-> Seg(KSp, <<0, 0>>, LAdd(<<J, 0>>, B(1000)))] >>

ASSUME CASE Focus = "wit" -> Emit(<< [op |-> "wits", chains |-> Chains, js |-> Js],
                                    [op |-> "wits", chains |-> << [kind |-> "plain", k |-> K(1), l |-> 0, key |-> <<>>] >>, js |-> Js2] >>)
         [] OTHER -> /\ \A s \in {Crossing, Exact8, Exact4, Hash8Even, Deep, OneShot, Tree, KeyedS, Half} : Emit(s)
                     /\ IF Focus = "std" \/ Thorough THEN \A s \in {Beyond, Hash8Odd, Update8, Writes, TreeOnce} : Emit(s) ELSE TRUE
=============================================================================
