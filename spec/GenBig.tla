------------------------------- MODULE GenBig --------------------------------
(***************************************************************************)
(* Long inputs and special contents: lengths around every power of two up  *)
(* to 2^20 (2^23), through every way of inputting them.  The control-state *)
(* graphs of GenStream and GenSp stay within a few blocks; these scripts   *)
(* look for anything that depends on how much is input at once or in all.  *)
(* FOCUS: stream, sp, multi, hash8, exact; and each preceded by "huge":    *)
(* inputs of more than 2^16 blocks in one call (2^16 per leaf).            *)
(***************************************************************************)
EXTENDS GenLib

Focus == IOEnv.FOCUS
Is(f) == Focus = f \/ Focus = "huge" \o f
Huge == \E f \in {"stream", "sp", "multi", "hash8", "exact"} : Focus = "huge" \o f
TopExp == T(20, 22)
LensM == [i \in 1..(3 * (TopExp - 7)) |-> 2^(8 + ((i - 1) \div 3)) + ((i - 1) % 3) - 1]
        \o <<1000, 3000, 8191 + 64, 10000, 16384 + 63, 100000, 65536 + 8192, 300000, 983040 + 1>>
        \o [i \in 1..T(10, 60) |-> Rnd(i, 60000) * (1 + Rnd(i + 1, 17)) + Rnd(i + 2, 64)]
Lens == IF ~Huge THEN LensM
        ELSE << 4194304 + 100, 4194304 + 64, 8388608 + 1 >> \o (IF Is("sp") THEN << 33554432 + 4097, 33554432 - 1 >> ELSE <<>>)
             \o (IF Thorough THEN << 16777216 + 65, 67108864 + 1 >> ELSE <<>>)
(* content streams: zeros, ones, one repeated byte, a single bit, and      *)
(* streams without repetition                                              *)
Content(i) == IF i % 4 # 0 THEN (IF i % 4 = 1 THEN 1300 ELSE 0) + 2 + (i % 20) ELSE <<0, 1, 1000 + ((i * 37) % 256), 2000 + ((i * 97) % 256), 10000 + ((i * 37) % 625), 11003 + ((i * 37) % 900)>>[1 + ((i \div 4) % 6)]

Sp == Is("sp")
New(x, i) == IF Sp THEN (IF i % 2 = 0 THEN << oTNew(x) >> ELSE << oQNew("p"), oSet("p", "key", Bytes(i, 1 + (i % 32))), oTSt("p", x) >>)
             ELSE (IF i % 2 = 0 THEN << oSNew(x) >> ELSE << oPNew("p"), oSet("p", "key", Bytes(i, 1 + (i % 32))), oSt("p", x) >>)

(* message of n bytes of stream k cut at the given points                  *)
RECURSIVE Cut(_, _, _, _, _, _)
Cut(x, k, from, cuts, n, via) ==
  IF cuts = <<>> THEN << oUpd(x, k, from, n - from, via) >>
  ELSE << oUpd(x, k, from, cuts[1] - from, via) >> \o Cut(x, k, cuts[1], Tail(cuts), n, (via + 1) % 9)
End(x) == << oCnt(x), oFin(x) >>

(* sizes the pieces of a long message have                                 *)
Firsts(n) == { a \in {1, 63, 64, 65, 512, 1024, 1025, 4096, 8192, n \div 2, n - 1, n - 64, n - 65, n - 512, n - 513} : a > 0 /\ a < n }
StreamScript(i, n) ==
  LET k == Content(i) IN
  /\ Emit(New("s", i) \o Cut("s", k, 0, <<n \div 3, n - n \div 5>>, n, 0) \o End("s")
          \o (IF i % 2 = 0 THEN << IF Sp THEN oSOne(k, 0, n) ELSE oOne(k, 0, n) >> ELSE <<>>)
          \o FlattenSeq([v \in 1..9 |-> New("s", i) \o Cut("s", k, 0, <<>>, n, v - 1) \o End("s") \o << oUpd("s", k, n, 1, v - 1) >> \o End("s")]))
  /\ LET fs == SetToSeq(Firsts(n)) IN
     Emit(New("s", i) \o Cut("s", k, 0, <<>>, n, 0) \o End("s")
          \o FlattenSeq([j \in DOMAIN fs |-> New("s", i) \o Cut("s", k, 0, <<fs[j]>>, n, (i + j) % 9) \o End("s")]))
(* many pieces of one size                                                 *)
Pieces(c, n, via) == [j \in 1..((n + c - 1) \div c) |-> oUpd("s", 2, (j - 1) * c, Min2(c, n - (j - 1) * c), via)]
ManyScript(i, c, n) ==
  Emit(New("s", i) \o Pieces(c, n, 0) \o End("s") \o New("s", i) \o Cut("s", 2, 0, <<>>, n, 0) \o End("s")
       \o New("s", i) \o Pieces(c, n, 1) \o End("s"))
(* fewer ways for huge inputs                                              *)
HugeScript(i, n) ==
  LET k == Content(i) IN
  Emit(New("s", i) \o Cut("s", k, 0, [j \in 1..((n - 1) \div 1000003) |-> j * 1000003], n, 0) \o End("s")
       \o (IF i % 2 = 0 THEN << IF Sp THEN oSOne(k, 0, n) ELSE oOne(k, 0, n) >> ELSE <<>>)
       \o New("s", i) \o Cut("s", k, 0, <<>>, n, i % 3) \o End("s") \o << oUpd("s", k, n, 1, 0) >> \o End("s")
       \o New("s", i) \o Cut("s", k, 0, <<17>>, n, 0) \o End("s"))
(* short messages made of blocks and words of special contents, cut anywhere *)
Shaped(j) ==
  LET w == IF Sp THEN 512 ELSE 64
      k == IF j % 3 = 0 THEN 11003 + ((j * 7) % 900) ELSE 10000 + ((j * 37) % 625)
      n == 2 * w + Rnd(j, 4 * w)
      c(i) == Rnd(9 * j + i, n + 1)
      b(i) == w * Rnd(7 * j + i, (n \div w) + 1)
      two(x, y) == <<Min2(x, y), x + y - Min2(x, y)>>
      One(cuts, via) == New("s", j) \o Cut("s", k, 0, cuts, n, via) \o End("s") IN
  Emit(One(<<>>, 0) \o One(two(c(1), c(2)), 0) \o One(two(b(1), b(2)), 1) \o One(two(b(3), Min2(n, b(4) + 1)), 0) \o One(two(c(3), b(5)), 2)
       \o One([i \in 1..((n - 1) \div w) |-> i * w], 0))
Stream(go) ==
  /\ \A i \in DOMAIN Lens : IF Huge THEN HugeScript(2 * i, Lens[i]) /\ HugeScript(2 * i + 1, Lens[i]) ELSE StreamScript(2 * i, Lens[i]) /\ StreamScript(2 * i + 1, Lens[i])
  /\ \A a \in 1..(IF Huge THEN 0 ELSE 14) : LET c == <<1, 3, 32, 63, 64, 65, 127, 128, 511, 512, 513, 1024, 1025, 4096>>[a] IN
        ManyScript(a, c, Min2(c * 300 + 17, 200000)) /\ ManyScript(a + 1, c, Min2(c * 256, 200000))
  /\ \A j \in 1..(IF Huge THEN 0 ELSE T(200, 2500)) : Shaped(j)

---------------------------------------------------------------------------
I8 == <<1, 2, 3, 4, 5, 6, 7, 8>>
Id(c, i) == c \o ToString(i)
Ids(c) == [i \in 1..8 |-> Id(c, i)]
Each8(F(_)) == FlattenSeq([i \in 1..8 |-> F(i)])
LaneLens(v, n) == [i \in 1..8 |-> CASE v % 4 = 0 -> n
                                    [] v % 4 = 1 -> IF i = 1 + ((v \div 4) % 8) THEN n \div 2 ELSE n
                                    [] v % 4 = 2 -> n + 64 * ((i * 3 + v) % 5)
                                    [] OTHER -> n - ((i * 7 + v) % 130)]
LaneK(v, i) == IF v % 5 = 4 THEN Content(4 * v) ELSE 3 + i
Multi(go) == \A v \in DOMAIN Lens : IF ~Huge /\ Lens[v] > T(300000, 1048577) THEN TRUE ELSE
  LET ls == LaneLens(v, Lens[v])
      pre == <<0, 1, 64, 65, 33>>[1 + (v % 5)]
      mk(x) == << oSNew(x) >> IN
  Emit(Each8(LAMBDA i : << oSNew(Id("a", i)), oUpd(Id("a", i), 40 + i, 0, pre, 0) >>)
       \o << oU8(Ids("a"), [i \in 1..8 |-> <<LaneK(v, i), 0, ls[i]>>]), oF8(Ids("a")) >>
       \o Each8(LAMBDA i : << oCnt(Id("a", i)), oSNew("z"), oUpd("z", 40 + i, 0, pre, 0), oUpd("z", LaneK(v, i), 0, ls[i], 0), oFin("z"), oCnt("z"), oFin(Id("a", i)) >>))
Hash8(go) == \A v \in DOMAIN Lens : IF ~Huge /\ Lens[v] > T(300000, 1048577) THEN TRUE ELSE
  LET ls == LaneLens(v, Lens[v]) IN
  Emit(Each8(LAMBDA i : << oPNew(Id("p", i)) >> \o (IF v % 2 = 0 THEN <<>> ELSE RndPlain(Id("p", i), 8 * v + i)))
       \o << oH8(Ids("p"), [i \in 1..8 |-> <<LaneK(v, i), 0, ls[i]>>]) >>
       \o Each8(LAMBDA i : << oSt(Id("p", i), "z"), oUpd("z", LaneK(v, i), 0, ls[i], 0), oFin("z") >>))
Exact(go) == \A v \in DOMAIN Lens : IF ~Huge /\ Lens[v] > T(300000, 1048577) THEN TRUE ELSE
  LET n == 64 * Max2(1, Lens[v] \div 64)  w == IF v % 2 = 0 THEN 4 ELSE 8 IN
  Emit(<< oPNew("p") >> \o (IF v % 3 = 0 THEN <<>> ELSE RndKey("p", v) \o RndPlain("p", v))
       \o << oExact("p", [i \in 1..w |-> <<LaneK(v, i), 0, n>>]), oExact("p", [i \in 1..(12 - w) |-> <<LaneK(v, i), 0, n>>]) >>
       \o FlattenSeq([i \in 1..8 |-> << oSt("p", "z"), oUpd("z", LaneK(v, i), 0, n, 0), oFin("z") >>]))

ASSUME CASE Is("stream") \/ Is("sp") -> Stream(0)
         [] Is("multi") -> Multi(0)
         [] Is("hash8") -> Hash8(0)
         [] Is("exact") -> Exact(0)
=============================================================================
