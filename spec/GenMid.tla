------------------------------- MODULE GenMid --------------------------------
(***************************************************************************)
(* Messages between 2^16 and 2^30 bytes, around every power of two and at  *)
(* random lengths, for the properties one by one.  FOCUS: wit (the witness *)
(* chains), one, keyed, walk, sp, spwalk, multi, hash8, exact, counts.     *)
(* Every number of whole blocks up to a limit, too.  Thorough: also        *)
(* messages of more than 2^32 bytes where GenLong is checked against       *)
(* witnesses only (multi, hash8, exact, spwalk, walk).                     *)
(***************************************************************************)
EXTENDS LongLib

Focus == IOEnv.FOCUS
TopE == T(23, 24)
Es == [i \in 1..(TopE - 9) |-> 9 + i]                        \* 2^10 .. 2^TopE blocks
Rs == [i \in 1..T(8, 40) |-> 1024 + Rnd(i, 60000) * (1 + Rnd(i + 100, 130))]   \* random numbers of blocks
Near(S, a, b) == UNION {{x + d : d \in a..b} : x \in S}
Ats == {2^Es[i] : i \in DOMAIN Es} \cup ToSet(Rs)
Js == SetToSortSeq((0..3) \cup (IF IOEnv.FOR = "sp" THEN Near({x \div 8 : x \in Ats}, -2, 3) ELSE Near(Ats, -2, 3)), LAMBDA a, b : a < b)
For == IOEnv.FOR              \* the scripts the witnesses are for
Chains == IF For = "sp" THEN [i \in 1..8 |-> [kind |-> "leaf", k |-> KSp, l |-> i - 1, key |-> <<>>]]
          ELSE [i \in 1..2 |-> [kind |-> "plain", k |-> K(i), l |-> 0, key |-> <<>>]]
               \o (IF For = "keyed" THEN << [kind |-> "keyed", k |-> K(1), l |-> 0, key |-> Key] >> ELSE <<>>)

(* lengths about b blocks *)
About(b) == << <<b - 1, 63>>, <<b, 0>>, <<b, 1>>, <<b + 1, 0>>, <<b, 65 - 1>> >>
Bs == [i \in DOMAIN Es |-> 2^Es[i]] \o Rs
Zero == <<0, 0>>
All(F(_, _)) == \A i \in DOMAIN Bs : F(i, Bs[i])

(* one-shot, and the same in one update, for each length *)
One(i, b) == LET ls == IF b > 2^21 THEN << <<b - 1, 63>>, <<b, 1>> >> ELSE About(b) IN
  Emit(FlattenSeq([j \in DOMAIN ls |-> << [op |-> "one", lin |-> Seg(K(1), Zero, LAdd(ls[j], Zero))] >>])
       \o << oSNew("s") >> \o Walk("s", K(2), Zero, << <<b, 0>>, B(1), B(63), B(64) >>, i % 4))
WithKey == << oPNew("p"), oSet("p", "key", Key), oSt("p", "s") >>
Keyed(i, b) == Emit(WithKey \o Walk("s", K(1), Zero, << <<b - 2, 63>>, B(1), B(1), B(63), B(1), B(64) >>, i % 4) \o << oLn("s", TRUE), oFin("s") >>
                    \o << oPNew("p"), oSet("p", "last_node", N64(1)), oSt("p", "s") >> \o Walk("s", K(2), Zero, << <<b - 1, 1>>, B(63), B(1) >>, i % 4))
(* many ways to the same length: digests after each way *)
RECURSIVE Ways(_, _, _)
Ways(x, at, ns) == IF ns = <<>> THEN <<>> ELSE << lUpd(x, K(2), at, ns[1], Len(ns) % 4) >> \o Ways(x, LAdd(at, ns[1]), Tail(ns))
Many(c, n) == [j \in 1..n |-> c]
Split(i, b) == Emit(FlattenSeq([w \in 1..5 |-> << oSNew("s") >>
    \o Ways("s", Zero, CASE w = 1 -> << <<b, 7>> >>
                         [] w = 2 -> << <<0, 9>>, <<b - 1, 62>> >>
                         [] w = 3 -> << <<b \div 2, 0>>, <<b - (b \div 2), 7>> >>
                         [] w = 4 -> << <<b - 1, 63>>, <<0, 8>> >>
                         [] OTHER -> Many(<<b \div 64, 0>>, 63) \o << <<b - 63 * (b \div 64), 7>> >>)
    \o << oCnt("s"), oFin("s") >>]))
(* BLAKE2sp *)
SpOne(i, b) == LET b8 == 8 * (b \div 8) IN
  Emit((IF b > 2^21 THEN <<>> ELSE << [op |-> "sone", lin |-> Seg(KSp, Zero, <<b8 + 3, 5>>)] >>)
       \o << [op |-> "sone", lin |-> Seg(KSp, Zero, <<b8, 0>>)], oTNew("t") >> \o Walk("t", KSp, Zero, << <<b8 - 1, 63>>, B(1), B(1), B(511), B(513), B(450) >>, i % 4))
RECURSIVE TWays(_, _, _)
TWays(x, at, ns) == IF ns = <<>> THEN <<>> ELSE << lUpd(x, KSp, at, ns[1], Len(ns) % 4) >> \o TWays(x, LAdd(at, ns[1]), Tail(ns))
SpSplit(i, b) == Emit(FlattenSeq([w \in 1..6 |-> << oTNew("t") >>
    \o TWays("t", Zero, CASE w = 1 -> << <<b, 7>> >>
                         [] w = 2 -> << <<0, 9>>, <<b - 1, 62>> >>
                         [] w = 3 -> << <<b \div 2, 0>>, <<b - (b \div 2), 7>> >>
                         [] w = 4 -> << <<b - 9, 63>>, <<8, 8>> >>
                         [] w = 5 -> << <<8, 0>>, <<b - 16, 0>>, <<8, 7>> >>
                         [] OTHER -> Many(<<b \div 64, 0>>, 63) \o << <<b - 63 * (b \div 64), 7>> >>)
    \o << oCnt("t"), oFin("t") >>]))
(* eight at once: each lane near another power of two *)
Of(v, i) == Bs[1 + ((v * 5 + i * (1 + (v % 3))) % Len(Bs))]
Cap(n) == IF n > 2^21 THEN n \div 8 ELSE n
LaneLen(v, i) == IF v % 3 = 0 THEN <<Cap(Bs[v]) + i, 0>> ELSE IF v % 3 = 1 THEN LAdd(<<Cap(Bs[v]), 0>>, B(37 * i)) ELSE LAdd(<<Cap(Of(v, i)), 0>>, B((i * 29 + v) % 130))
Refs(v, pre, mk(_), more) == Each8(LAMBDA i : mk(i) \o (IF pre = 0 THEN <<>> ELSE << lUpd(Id("z", i), K(i), Zero, B(pre), 0) >>))
                    \o << oPar([i \in 1..8 |-> [s |-> Id("z", i), lin |-> << Seg(K(i), B(pre), more[i]) >>]]) >>
Multi(v, b) == LET pre == <<0, 1, 64, 65, 33>>[1 + (v % 5)]  ls == [i \in 1..8 |-> LaneLen(v, i)] IN
  Emit(Refs(v, pre, LAMBDA i : << oSNew(Id("z", i)) >>, ls)
       \o Each8(LAMBDA i : << oSNew(Id("a", i)) >> \o (IF pre = 0 THEN <<>> ELSE << lUpd(Id("a", i), K(i), Zero, B(pre), 0) >>))
       \o << [op |-> "u8", xs |-> Ids("a"), lins |-> [i \in 1..8 |-> Seg(K(i), B(pre), ls[i])]], oF8(Ids("a")), oF8(Ids("z")) >>
       \o Each8(LAMBDA i : << oCnt(Id("a", i)), oFin(Id("a", i)) >>))
Hash8(v, b) == LET ls == [i \in 1..8 |-> LaneLen(v, i)] IN
  Emit(Each8(LAMBDA i : << oPNew(Id("p", i)), oSet(Id("p", i), "last_node", N64((i + v) % 2)) >>)
       \o Refs(v, 0, LAMBDA i : << oSt(Id("p", i), Id("z", i)) >>, ls)
       \o << [op |-> "h8", ps |-> Ids("p"), lins |-> [i \in 1..8 |-> Seg(K(i), Zero, ls[i])]] >>)
Exact(v, b) == LET n == <<Cap(b) + (v % 3), 0>> IN
  Emit(<< oPNew("p") >> \o (IF v % 2 = 0 THEN << oSet("p", "key", Key) >> ELSE <<>>)
       \o Refs(v, 0, LAMBDA i : << oSt("p", Id("z", i)) >>, [i \in 1..8 |-> n])
       \o << [op |-> "exact", x |-> "p", lins |-> [i \in 1..8 |-> Seg(K(i), Zero, n)]], [op |-> "exact", x |-> "p", lins |-> [i \in 1..4 |-> Seg(K(i + (v % 4)), Zero, n)]] >>)

---------------------------------------------------------------------------
(* Beyond 2^32 bytes, with the same done singly as the reference           *)
BigMulti(go) == \A v \in 1..3 : LET pre == <<0, 64, 33>>[v]  ls == [i \in 1..8 |-> IF v = 1 THEN <<J + i, 0>> ELSE IF v = 2 THEN LAdd(<<J - 1, 0>>, B(37 * i)) ELSE IF i % 2 = 0 THEN <<J + 3, 5>> ELSE <<i * 1000, i>>] IN
  Emit(Refs(v, pre, LAMBDA i : << oSNew(Id("z", i)) >>, ls)
       \o Each8(LAMBDA i : << oSNew(Id("a", i)) >> \o (IF pre = 0 THEN <<>> ELSE << lUpd(Id("a", i), K(i), Zero, B(pre), 0) >>))
       \o << [op |-> "u8", xs |-> Ids("a"), lins |-> [i \in 1..8 |-> Seg(K(i), B(pre), ls[i])]], oF8(Ids("a")), oF8(Ids("z")) >>
       \o Each8(LAMBDA i : << oCnt(Id("a", i)), oFin(Id("a", i)) >>))
BigHash8(go) == \A v \in 1..2 : LET ls == [i \in 1..8 |-> IF v = 1 THEN <<J + 1, 0>> ELSE IF i % 3 = 0 THEN <<i * 1001, i>> ELSE LAdd(<<J, 0>>, B(61 * i))] IN
  Emit(Each8(LAMBDA i : << oPNew(Id("p", i)), oSet(Id("p", i), "last_node", N64((i + v) % 2)) >>)
       \o Refs(v, 0, LAMBDA i : << oSt(Id("p", i), Id("z", i)) >>, ls)
       \o << [op |-> "h8", ps |-> Ids("p"), lins |-> [i \in 1..8 |-> Seg(K(i), Zero, ls[i])]] >>)
BigExact(go) == \A v \in 1..2 : LET n == <<J + v, 0>> IN
  Emit(<< oPNew("p") >> \o (IF v % 2 = 0 THEN << oSet("p", "key", Key) >> ELSE <<>>)
       \o Refs(v, 0, LAMBDA i : << oSt("p", Id("z", i)) >>, [i \in 1..8 |-> n])
       \o << [op |-> "exact", x |-> "p", lins |-> [i \in 1..8 |-> Seg(K(i), Zero, n)]], [op |-> "exact", x |-> "p", lins |-> [i \in 1..4 |-> Seg(K(i + (v % 4)), Zero, n)]] >>)

---------------------------------------------------------------------------
(* Every number of whole blocks up to SweepTop, and a byte more or less:   *)
(* a library that takes long inputs in pieces of some size shows it where  *)
(* the pieces come out even.  One script for each Chunk of them; where     *)
(* digests are compared with witnesses, the script has its own.            *)
Chunk == 64
Sweep(top, f(_, _)) == \A c \in 0..(top \div Chunk - 1) : f(Chunk * c + 1, Chunk * (c + 1))
Per(lo, hi, f(_)) == FlattenSeq([x \in 1..(hi - lo + 1) |-> f(lo + x - 1)])
Whole(k, b) == Seg(k, Zero, <<b, 0>>)
oneL(k, n) == [op |-> "one", lin |-> Seg(k, Zero, n)]
soneL(k, n) == [op |-> "sone", lin |-> Seg(k, Zero, n)]
Wits(chains, a, b) == [op |-> "wits", chains |-> chains, js |-> Span(IF a < 0 THEN 0 ELSE a, b)]
PlainC(k) == [kind |-> "plain", k |-> k, l |-> 0, key |-> <<>>]
KeyedC(k) == [kind |-> "keyed", k |-> k, l |-> 0, key |-> Key]
SweepOne(lo, hi) == Emit(<< Wits(<< PlainC(K(1)) >>, lo - 2, hi) >> \o Per(lo, hi, LAMBDA b : << oneL(K(1), <<b, 0>>) >> \o (IF b % 4 = 0 THEN << oneL(K(1), <<b, 1>>), oneL(K(1), <<b - 1, 63>>) >> ELSE <<>>)))
SweepKeyed(lo, hi) == Emit(<< Wits(<< KeyedC(K(1)) >>, lo - 1, hi + 1) >> \o WithKey
  \o Per(lo, hi, LAMBDA b : << oSt("p", "s"), lUpd("s", K(1), Zero, <<b, 0>>, b % 4), oCnt("s"), oFin("s") >>))
(* groups of eight chunks *)
SweepSp(lo, hi) == Emit(<< Wits([i \in 1..8 |-> [kind |-> "leaf", k |-> KSp, l |-> i - 1, key |-> <<>>]], lo - 2, hi) >>
  \o Per(lo, hi, LAMBDA g : << soneL(KSp, <<8 * g, 0>>) >> \o (IF g % 4 = 1 THEN << soneL(KSp, <<8 * g + (g % 8), g % 64>>), soneL(KSp, <<8 * g, 1>>) >> ELSE <<>>)))
SweepWalk(lo, hi) == Emit(<< oSNew("r"), lUpd("r", K(1), Zero, <<lo - 1, 0>>, 8) >>
  \o Per(lo, hi, LAMBDA b : << lUpd("r", K(1), <<b - 1, 0>>, <<1, 0>>, 0), oFin("r"), oneL(K(1), <<b, 0>>),
                               oSNew("s"), lUpd("s", K(1), Zero, <<0, 1 + (b % 64)>>, 0), lUpd("s", K(1), LAdd(Zero, B(1 + (b % 64))), LAdd(<<b - 1, 0>>, B(63 - (b % 64))), 1), oFin("s"),
                               oSNew("s"), lUpd("s", K(1), Zero, <<1, 0>>, 0), lUpd("s", K(1), <<1, 0>>, <<b, 0>>, b % 3), oFin("s") >>)
  \o << lUpd("r", K(1), <<hi, 0>>, <<1, 0>>, 0), oFin("r") >>)
SweepSpWalk(lo, hi) == Emit(<< oTNew("r"), lUpd("r", KSp, Zero, <<8 * (lo - 1), 0>>, 8) >>
  \o Per(lo, hi, LAMBDA g : << lUpd("r", KSp, <<8 * (g - 1), 0>>, <<8, 0>>, 0), oFin("r"), oCnt("r"), soneL(KSp, <<8 * g, 0>>),
                               oTNew("s"), lUpd("s", KSp, Zero, <<0, 1 + (g % 64)>>, 0), lUpd("s", KSp, B(1 + (g % 64)), LAdd(<<8 * g - 1, 0>>, B(63 - (g % 64))), 1), oCnt("s"), oFin("s"),
                               oTNew("s"), lUpd("s", KSp, Zero, <<8, 0>>, 0), lUpd("s", KSp, <<8, 0>>, <<8 * g, 0>>, g % 3), oFin("s"),
                               soneL(KSp, <<8 * g + (g % 7) + 1, 3>>), oTNew("s"), lUpd("s", KSp, Zero, <<(g % 9), 17>>, 0), lUpd("s", KSp, <<(g % 9), 17>>, <<8 * g + (g % 7) - (g % 9), 50>>, 0), oFin("s") >>)
  \o << lUpd("r", KSp, <<8 * hi, 0>>, <<8, 0>>, 0), oFin("r") >>)
Alt(i) == K(1 + (i % 2))
SweepMulti(lo, hi) == Emit(Per(lo, hi, LAMBDA b : << oneL(K(1), <<b, 0>>), oneL(K(2), <<b, 0>>) >> \o Each8(LAMBDA i : << oSNew(Id("a", i)) >>)
  \o << [op |-> "u8", xs |-> Ids("a"), lins |-> [i \in 1..8 |-> Whole(Alt(i), b)]], oF8(Ids("a")) >>))
SweepHash8(lo, hi) == Emit(Each8(LAMBDA i : << oPNew(Id("p", i)) >>)
  \o Per(lo, hi, LAMBDA b : << oneL(K(1), <<b, 0>>), oneL(K(2), <<b, 0>>), [op |-> "h8", ps |-> Ids("p"), lins |-> [i \in 1..8 |-> Whole(Alt(i), b)]],
                               oneL(K(1), <<b, 1>>), [op |-> "h8", ps |-> Ids("p"), lins |-> [i \in 1..8 |-> IF i = 1 + (b % 8) THEN Seg(K(1), Zero, <<b, 1>>) ELSE Whole(Alt(i), b)]] >>))
SweepExact(lo, hi) == Emit(<< oPNew("p") >>
  \o Per(lo, hi, LAMBDA b : << oneL(K(1), <<b, 0>>), oneL(K(2), <<b, 0>>), [op |-> "exact", x |-> "p", lins |-> [i \in 1..8 |-> Whole(Alt(i), b)]],
                               [op |-> "exact", x |-> "p", lins |-> [i \in 1..4 |-> Whole(Alt(i), b)]] >>))
Top == T(4096, 16384)
TopSp == T(512, 2048)

If(b, f(_)) == IF b THEN f(0) ELSE TRUE
(* counts beyond 2^32 bytes *)
Counts(go) ==
  /\ Emit(<< oSNew("s"), lUpd("s", K(1), Zero, <<J - 1, 63>>, 0), oCnt("s") >> \o Walk("s", K(1), <<J - 1, 63>>, << B(1), B(1), B(200) >>, 1))
  /\ Emit(WithKey \o << lUpd("s", K(2), Zero, <<J + 7, 9>>, 1), oCnt("s"), oFin("s"), oCnt("s"), oClone("s", "c"), oCnt("c") >>)
  /\ Emit(<< oTNew("t"), lUpd("t", KSp, Zero, <<J + 20, 9>>, 0), oCnt("t") >> \o Walk("t", KSp, <<J + 20, 9>>, << B(600), B(1) >>, 1))
  /\ Emit(<< oTNew("t"), lUpd("t", KSp, Zero, <<J - 8, 0>>, 0), oCnt("t") >> \o Walk("t", KSp, <<J - 8, 0>>, << B(511), B(1), B(1), B(512) >>, 0))
  /\ If(Thorough, LAMBDA g : /\ Emit(<< oSNew("s"), lUpd("s", K(1), Zero, <<J, 5>>, 0), lUpd("s", K(1), <<J, 5>>, <<J, 5>>, 0), oCnt("s"), lUpd("s", K(1), <<2 * J, 10>>, <<2, 5>>, 0), oCnt("s") >>)
                              /\ Emit(<< oTNew("s"), lUpd("s", K(1), Zero, <<J, 5>>, 0), lUpd("s", K(1), <<J, 5>>, <<J, 5>>, 0), oCnt("s"), lUpd("s", K(1), <<2 * J, 10>>, <<2, 5>>, 0), oCnt("s") >>))

ASSUME CASE Focus = "wit" -> Emit(<< [op |-> "wits", chains |-> Chains, js |-> Js] >>)
         [] Focus = "one" -> All(One) /\ Sweep(Top, SweepOne)
         [] Focus = "keyed" -> All(Keyed) /\ Sweep(Top, SweepKeyed)
         [] Focus = "walk" -> All(Split) /\ Sweep(Top, SweepWalk) /\ If(Thorough, LAMBDA go : Split(1, J + 3))
         [] Focus = "sp" -> All(SpOne) /\ Sweep(TopSp, SweepSp)
         [] Focus = "spwalk" -> All(SpSplit) /\ Sweep(TopSp, SweepSpWalk) /\ If(Thorough, LAMBDA go : SpSplit(1, J + 3) /\ SpSplit(1, J + 8))
         [] Focus = "multi" -> All(Multi) /\ Sweep(Top \div 2, SweepMulti) /\ If(Thorough, BigMulti)
         [] Focus = "hash8" -> All(Hash8) /\ Sweep(Top, SweepHash8) /\ If(Thorough, BigHash8)
         [] Focus = "counts" -> Counts(0)
         [] Focus = "exact" -> All(Exact) /\ Sweep(Top, SweepExact) /\ If(Thorough, BigExact)
=============================================================================
