------------------------------- MODULE GenMulti ------------------------------
(***************************************************************************)
(* Eight-way operations.  FOCUS:                                           *)
(*   update : update8 / finalize8 on hashers of every mix of buffered      *)
(*            bytes, input lengths, parameters, keys and flags; mixed with *)
(*            single operations and regrouping                             *)
(*   hash8  : hash8 on every mix of lengths and parameters; keyed lanes    *)
(*   exact  : hash4_exact / hash8_exact on valid groups                    *)
(*   shape  : hash4_exact / hash8_exact on every kind of invalid group     *)
(* Each script also computes every lane's digest by a hasher of its own.   *)
(***************************************************************************)
EXTENDS GenLib

Focus == IOEnv.FOCUS
I8 == <<1, 2, 3, 4, 5, 6, 7, 8>>
Id(c, i) == c \o ToString(i)
Ids(c) == [i \in 1..8 |-> Id(c, i)]
Map8(F(_)) == [i \in 1..8 |-> F(i)]
Each8(F(_)) == FlattenSeq([i \in 1..8 |-> F(i)])

(* Content stream of lane i, variant v; neighbouring lanes differ, except  *)
(* in some variants where all lanes get the same content, or blocks or     *)
(* words of special contents.                                              *)
K(v, i) == IF v % 7 = 3 THEN 9 ELSE IF v % 7 = 5 THEN 10000 + ((131 * v + 77 * i) % 625) ELSE IF v % 14 = 6 THEN 11003 + ((31 * v + i) % 900) ELSE 10 + i
O(v, i) == IF v % 7 \in {5, 6} THEN 0 ELSE i

(* Parameters of lane i in script number v: default, one common odd set,   *)
(* or all different; kind "plain" has no keys.                             *)
Ps(x, v, i, keyed) ==
  LET u == v % 4 IN
  << oPNew(x) >> \o
  (IF u = 0 THEN <<>>
   ELSE IF u = 1 THEN RndPlain(x, v) \o (IF keyed THEN RndKey(x, v) ELSE <<>>)
   ELSE RndPlain(x, 8 * v + i) \o (IF keyed /\ Rnd(5 * v + i, 2) = 0 THEN RndKey(x, 8 * v + i) ELSE <<>>))

---------------------------------------------------------------------------
(* update8 / finalize8.  pre, len, more: byte counts per lane.             *)
Start(v) == Each8(LAMBDA i : IF v % 4 = 0 THEN << oSNew(Id("a", i)) >>
                             ELSE Ps(Id("p", i), v, i, TRUE) \o << oSt(Id("p", i), Id("a", i)) >>)
Pre(v, pre) == Each8(LAMBDA i : << oUpd(Id("a", i), K(v, i), 0, pre[i], 0) >>)
(* the same pieces, one by one, through a hasher of its own                *)
Alone(v, i, ns) ==
  (IF v % 4 = 0 THEN << oSNew("z") >> ELSE << oSt(Id("p", i), "z") >>)
  \o [j \in DOMAIN ns |-> oUpd("z", K(v, i), FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(ns, 1, j - 1)), ns[j], 0)]
  \o << oFin("z"), oCnt("z"), oDrop("z") >>

UScript(v, pre, len, more) ==
  LET n1 == Map8(LAMBDA i : pre[i] + len[i])
      Flip == IF v % 5 = 1 THEN Each8(LAMBDA i : IF Rnd(v + 7 * i, 3) = 0 THEN << oLn(Id("a", i), Rnd(v + i, 2) = 0) >> ELSE <<>>) ELSE <<>>
  IN  Emit(Start(v) \o Pre(v, pre)
           \o << oU8(Ids("a"), Map8(LAMBDA i : <<K(v, i), pre[i], len[i]>>)) >>
           \o (IF v % 3 = 0 THEN << oF8(Ids("a")) >> ELSE <<>>)
           \o Each8(LAMBDA i : << oFin(Id("a", i)), oCnt(Id("a", i)) >>)
           \o Each8(LAMBDA i : Alone(v, i, <<pre[i], len[i]>>))
           \o (IF v % 3 # 0 THEN << oF8(Ids("a")) >> ELSE <<>>)
           \o << oU8(Ids("a"), Map8(LAMBDA i : <<K(v, i), n1[i], more[i]>>)) >>
           \o (IF v % 5 = 1 THEN << oF8(Ids("a")) >> \o Flip ELSE <<>>)
           \o << oF8(Ids("a")) >>
           \o Each8(LAMBDA i : (IF v % 5 = 1 THEN <<>> ELSE Alone(v, i, <<pre[i], len[i], more[i]>>)) \o << oFin(Id("a", i)), oCnt(Id("a", i)) >>)
           \o << oF8(Ids("a")) >>)

(* Regrouping: lanes permuted, hashers of two groups mixed, single updates *)
(* in between.                                                             *)
Regroup(v) ==
  LET xs == Ids("a")
      b == Ids("b")
      mix == Map8(LAMBDA i : IF (i + v) % 2 = 0 THEN xs[i] ELSE b[1 + ((i + v) % 8)])
      rest == Map8(LAMBDA i : IF (i + v) % 2 = 0 THEN b[1 + ((i + v) % 8)] ELSE xs[i])
      q == Map8(LAMBDA i : Rnd(31 * v + i, 200))
      r == Map8(LAMBDA i : Rnd(37 * v + i, 300))
      w == Map8(LAMBDA i : Rnd(41 * v + i, 150))
  IN  Emit(Start(v) \o Each8(LAMBDA i : << oClone(Id("a", i), Id("b", 9 - i)) >>)
           \o << oU8(xs, Map8(LAMBDA i : <<3, 0, q[i]>>)), oU8(mix, Map8(LAMBDA i : <<4, i, r[i]>>)), oF8(mix), oF8(rest),
                 oUpd(xs[3], 5, 0, w[1], 0), oUpd(b[3], 5, 1, w[2], 1), oU8(rest, Map8(LAMBDA i : <<6, i, w[i]>>)),
                 oF8(b), oF8(xs) >>
           \o Each8(LAMBDA i : << oFin(xs[i]), oFin(b[i]), oCnt(xs[i]), oCnt(b[i]) >>)
           \o << oF8(mix), oF8(rest), oClone(xs[1], "c"), oUpd(xs[1], 7, 0, 65, 0), oFin("c"), oF8(xs), oF8(b) >>
           \o LET at(s, h) == CHOOSE i \in 1..8 : s[i] = h
                  alone(h, i, j, extra) ==      \* h is xs[i] or b[j]; i names its parameters
                    (IF v % 4 = 0 THEN << oSNew("z") >> ELSE << oSt(Id("p", i), "z") >>)
                    \o (IF h \in {xs[k] : k \in 1..8} THEN << oUpd("z", 3, 0, q[at(xs, h)], 0) >> ELSE <<>>)
                    \o (IF h \in {mix[k] : k \in 1..8} THEN << oUpd("z", 4, at(mix, h), r[at(mix, h)], 0) >> ELSE <<>>)
                    \o extra
                    \o (IF h \in {rest[k] : k \in 1..8} THEN << oUpd("z", 6, at(rest, h), w[at(rest, h)], 0) >> ELSE <<>>)
                    \o << oFin("z"), oCnt("z"), oDrop("z") >>
              IN  FlattenSeq([i \in 1..8 |-> alone(xs[i], i, 0, IF i = 3 THEN << oUpd("z", 5, 0, w[1], 0) >> ELSE <<>>)])
                  \o FlattenSeq([i \in 1..8 |-> alone(b[i], 9 - i, i, IF i = 3 THEN << oUpd("z", 5, 1, w[2], 0) >> ELSE <<>>)]))

UL == <<0, 1, 63, 64, 65, 127, 128, 129, 192, 193, 257>>
PL == <<0, 1, 63, 64, 65, 128>>
Dev(j, a, b) == Map8(LAMBDA i : IF i = j THEN b ELSE a)
RVec(v, s) == Map8(LAMBDA i : s[1 + Rnd(v * 8 + i, Len(s))])
Update(go) ==
  (* one lane deviates in its input length *)
  /\ \A j \in 1..8 : \A a, b \in DOMAIN UL :
       LET v == 121 * j + 11 * a + b  p == PL[1 + (v % 6)] IN
       UScript(v, Dev((v % 8) + 1, p, PL[1 + ((v \div 6) % 6)]), Dev(j, UL[a], UL[b]), RVec(v, UL))
  (* one lane deviates in its buffered bytes *)
  /\ \A j \in 1..8 : \A a, b \in DOMAIN PL : \A l \in (IF Thorough THEN DOMAIN UL ELSE {1, 4, 5, 8}) :
       UScript(1000 + 210 * j + 35 * a + 6 * b + l, Dev(j, PL[a], PL[b]), Dev(j, UL[l], UL[1 + (l % 11)]), RVec(j + a + b, UL))
  (* everything random *)
  /\ \A v \in 1..T(300, 6000) : UScript(v, RVec(v, PL), RVec(v + 700, UL), Map8(LAMBDA i : Rnd(8 * v + i, 260)))
  /\ \A v \in 1..T(250, 3000) : Regroup(v)
  (* two lanes, or all, with the very same input, after different beginnings *)
  (* or differently flagged                                                  *)
  /\ \A i \in 1..8 : \A j \in 1..8 : IF i = j THEN TRUE ELSE \A w \in 0..5 :
       LET v == i + 3 * j + w
           seg(k) == IF k \in {i, j} \/ v % 3 = 0 THEN <<7, 0, UL[1 + (v % 11)]>> ELSE <<10 + k, 0, UL[1 + ((v + (IF v % 2 = 0 THEN 0 ELSE k)) % 11)]>>
           mk(x, k) == << oSNew(x) >> \o (IF k = j /\ w % 2 = 0 THEN << oLn(x, TRUE) >> ELSE <<>>)
                       \o (IF w < 2 THEN <<>> ELSE << oUpd(x, IF w < 4 THEN 5 ELSE 20 + k, 0, PL[1 + (v % 6)], 0) >>) IN
       Emit(Each8(LAMBDA k : mk(Id("a", k), k)) \o << oU8(Ids("a"), Map8(seg)), oF8(Ids("a")) >>
            \o Each8(LAMBDA k : mk("z", k) \o << oUpd("z", seg(k)[1], 0, seg(k)[3], 0), oFin("z"), oCnt("z"), oCnt(Id("a", k)), oFin(Id("a", k)), oDrop("z") >>)
            \o << oU8(Ids("a"), Map8(seg)), oF8(Ids("a")) >>)

---------------------------------------------------------------------------
(* hash8 *)
HAlone(v, i, n) == << oSt(Id("p", i), "z"), oUpd("z", K(v, i), O(v, i), n, 0), oFin("z"), oDrop("z") >>
HScript(v, len) ==
  Emit(Each8(LAMBDA i : Ps(Id("p", i), v, i, FALSE))
       \o << oH8(Ids("p"), Map8(LAMBDA i : <<K(v, i), O(v, i), len[i]>>)) >>
       \o Each8(LAMBDA i : HAlone(v, i, len[i]))
       \o << oH8(Ids("p"), Map8(LAMBDA i : <<K(v, i), O(v, i), len[i]>>)) >>)
OneField == << <<"last_node", N64(1)>>, <<"last_node", N64(0)>>, <<"hash_length", N64(20)>>, <<"salt", Bytes(1, 5)>>, <<"personal", Bytes(2, 8)>>, <<"fanout", N64(2)>>,
               <<"max_depth", N64(255)>>, <<"max_leaf_length", N64(64)>>, <<"node_offset", W64(0, 1, 0, 0)>>, <<"node_depth", N64(1)>>, <<"inner_hash_length", N64(32)>> >>
HL == <<0, 1, 63, 64, 65, 127, 128, 129, 192, 193, 256, 300>>
Hash8(go) ==
  /\ \A a \in DOMAIN HL : \A u \in 0..3 : HScript(4 * a + u, Dev(1, HL[a], HL[a]))
  /\ \A j \in 1..8 : \A a, b \in DOMAIN HL : IF a = b THEN TRUE ELSE HScript(3 * a + 7 * b + 5 * j, Dev(j, HL[a], HL[b]))
  /\ \A v \in 1..T(300, 5000) : HScript(v, RVec(v, HL))
  /\ \A v \in 1..T(150, 3000) : HScript(v, Map8(LAMBDA i : 64 * Rnd(v + 3, 6) + Rnd(9 * v + i, 140)))
  (* the same Params object in several lanes *)
  /\ \A v \in 0..7 : Emit(Each8(LAMBDA i : Ps(Id("p", i), v, i, FALSE))
         \o << oH8(Map8(LAMBDA i : Id("p", 1 + ((i * v) % 3))), Map8(LAMBDA i : <<K(v, i), i, 64 * (v % 3)>>)) >>
         \o Each8(LAMBDA i : << oSt(Id("p", 1 + ((i * v) % 3)), "z"), oUpd("z", K(v, i), i, 64 * (v % 3), 0), oFin("z"), oDrop("z") >>))
  (* two lanes, or all, with the very same input; parameters that differ in  *)
  (* one field only, or not at all                                           *)
  /\ \A i \in 1..8 : \A j \in 1..8 : IF i = j THEN TRUE ELSE \A f \in DOMAIN OneField :
       LET v == i + 3 * j + 5 * f
           seg(k) == IF k \in {i, j} \/ v % 3 = 0 THEN <<7, 0, HL[1 + (v % 12)]>> ELSE <<10 + k, 0, HL[1 + ((v + (IF v % 2 = 0 THEN 0 ELSE k)) % 12)]>> IN
       Emit(Each8(LAMBDA k : << oPNew(Id("p", k)) >> \o (IF k = j THEN << oSet(Id("p", k), OneField[f][1], OneField[f][2]) >> ELSE <<>>))
            \o << oH8(Ids("p"), Map8(seg)), oH8(Ids("p"), Map8(seg)) >>
            \o Each8(LAMBDA k : << oSt(Id("p", k), "z"), oUpd("z", seg(k)[1], 0, seg(k)[3], 0), oFin("z"), oDrop("z") >>))
  (* a key anywhere: one lane, several, all; of every length; and removed *)
  /\ \A j \in 1..8 : \A n \in (1..32) : \A a \in {1, 4, 8} :
       LET v == 4 * n + (j % 4) IN
       Emit(Each8(LAMBDA i : Ps(Id("p", i), v, i, FALSE))
            \o << oSet(Id("p", j), "key", IF n % 2 = 0 THEN [x \in 1..n |-> 0] ELSE Bytes(n, n)),
                  oH8(Ids("p"), Map8(LAMBDA i : <<K(v, i), O(v, i), HL[a]>>)),
                  oSet(Id("p", j), "key", <<>>),
                  oH8(Ids("p"), Map8(LAMBDA i : <<K(v, i), O(v, i), HL[a]>>)) >>
            \o Each8(LAMBDA i : HAlone(v, i, HL[a])))
  /\ \A v \in 1..T(60, 600) :
       Emit(Each8(LAMBDA i : Ps(Id("p", i), 4 * v + 2, i, FALSE) \o (IF Rnd(v * 8 + i, 2) = 0 THEN RndKey(Id("p", i), v + i) ELSE <<>>))
            \o << oH8(Ids("p"), Map8(LAMBDA i : <<K(v, i), i, HL[1 + Rnd(v + i, 12)]>>)) >>)

---------------------------------------------------------------------------
(* exact *)
EScript(v, n, len) ==     \* v % 4: parameters; n = 4 or 8 lanes
  LET g == [i \in 1..n |-> <<K(v, i), i * 64 * (v % 2), len>>] IN
  Emit(Ps("p", v, 1, FALSE) \o (IF v % 3 # 0 THEN RndKey("p", v) ELSE <<>>)
       \o << oExact("p", g) >>
       \o FlattenSeq([i \in 1..n |-> << oSt("p", "z"), oUpd("z", g[i][1], g[i][2], len, 0), oFin("z"), oDrop("z") >>])
       \o << oExact("p", [i \in 1..n |-> g[n + 1 - i]]), oExact("p", g), oSet("p", "last_node", N64((v \div 12) % 2)), oExact("p", g) >>
       \o FlattenSeq([i \in 1..n |-> << oSt("p", "z"), oUpd("z", g[i][1], g[i][2], len, 1), oFin("z"), oDrop("z") >>]))
EL == <<64, 128, 192, 256, 320, 384, 448, 512, 640, 1024, 1088, 2112>>
Exact(go) ==
  /\ \A n \in {4, 8} : \A a \in DOMAIN EL : \A u \in 0..(T(24, 200)) : EScript(u + 24 * a, n, EL[a])
  /\ \A n \in {4, 8} : \A v \in 1..T(300, 4000) : EScript(v, n, 64 * (1 + Rnd(v, 12)))
  (* the very same input in two places, or in all *)
  /\ \A n \in {4, 8} : \A i, j \in 1..n : \A a \in {1, 2, 5} : IF i = j THEN TRUE ELSE
       LET v == i + 3 * j + a  g == [k \in 1..n |-> IF k \in {i, j} \/ v % 4 = 0 THEN <<7, 0, EL[a]>> ELSE <<10 + k, 0, EL[a]>>] IN
       Emit(Ps("p", v, 1, FALSE) \o (IF v % 3 # 0 THEN RndKey("p", v) ELSE <<>>) \o << oExact("p", g), oExact("p", g) >>
            \o FlattenSeq([k \in 1..n |-> << oSt("p", "z"), oUpd("z", g[k][1], 0, EL[a], 0), oFin("z"), oDrop("z") >>]))
  (* every key length, every hash length *)
  /\ \A n \in {4, 8} : \A k \in 1..32 : \A len \in {64, 128} :
       LET g == [i \in 1..n |-> <<20 + i, 0, len>>] IN
       Emit(<< oPNew("p"), oSet("p", "key", Bytes(k, k)), oSet("p", "hash_length", N64(k)), oExact("p", g) >>
            \o FlattenSeq([i \in 1..n |-> << oSt("p", "z"), oUpd("z", 20 + i, 0, len, 0), oFin("z"), oDrop("z") >>]))

---------------------------------------------------------------------------
(* shapes *)
SScript(v, lens) ==
  LET n == Len(lens) IN
  Emit(Ps("p", v, 1, FALSE) \o (IF v % 3 = 1 THEN RndKey("p", v) ELSE <<>>)
       \o << oExact("p", [i \in 1..n |-> <<10 + i, 0, lens[i]>>]) >>)
SL == <<0, 1, 32, 63, 64, 65, 96, 127, 128, 129, 191, 192, 256, 320, 1024, 4096, 65536, 65600>>
OneOff(n, j, a, b) == [i \in 1..n |-> IF i = j THEN b ELSE a]
Shape(go) ==
  /\ \A n \in {4, 8} : \A a \in DOMAIN SL : \A b \in DOMAIN SL : \A j \in 1..n :
       IF a = b THEN (IF j = 1 THEN \A u \in 0..5 : SScript(u, OneOff(n, 1, SL[a], SL[a])) ELSE TRUE)
       ELSE SScript(a + b + j, OneOff(n, j, SL[a], SL[b]))
  (* two odd inputs, whose lengths might cancel in a sum or an xor *)
  /\ \A n \in {4, 8} : \A i \in 1..n : \A j \in 1..n : IF i >= j THEN TRUE ELSE
       \A d \in {1, 63, 64, 128} : \A b \in {128, 192} :
          /\ SScript(i + j + d, [k \in 1..n |-> IF k = i THEN b + d ELSE IF k = j THEN b - d ELSE b])
          /\ SScript(i + j + d, [k \in 1..n |-> IF k \in {i, j} THEN b + d ELSE b])
  (* every split of the lanes into two length classes *)
  /\ \A n \in {4, 8} : \A S \in SUBSET (1..n) :
       SScript(n + Cardinality(S), [k \in 1..n |-> IF k \in S THEN 64 ELSE 128])
  (* all equal, every length up to 300; around larger multiples *)
  /\ \A n \in {4, 8} : \A l \in (0..T(330, 2200)) \cup {1023, 1025, 4095, 4097, 65535, 65536, 65537, 65600} : SScript(l, [k \in 1..n |-> l])

(* Lengths that agree modulo 2^32 (or modulo 2^32 blocks' low bits) but     *)
(* differ, or are no multiples only in their low bits.                     *)
G32 == 67108864        \* 2^32 bytes, in blocks
Giant(go) ==
  LET Sh(v, n, F(_)) == Emit(Ps("p", v, 1, FALSE) \o (IF v % 3 = 1 THEN RndKey("p", v) ELSE <<>>)
                             \o << oExactL("p", [i \in 1..n |-> <<1, i % 3, 0>> \o F(i)]), oSt("p", "z"), oUpd("z", 2, 0, 5, 0), oFin("z") >>)
      Ls == << <<0, 0>>, <<1, 0>>, <<2, 0>>, <<G32, 0>>, <<G32 + 1, 0>>, <<G32 + 2, 0>>, <<G32, 1>>, <<G32 + 1, 63>>, <<G32 \div 2, 0>>, <<G32 \div 2 + 1, 0>>, <<1024, 0>>, <<1025, 0>>, <<4, 0>>, <<5, 0>> >>
  IN  \A n \in {4, 8} : \A a, b \in DOMAIN Ls : \A j \in {1, 2, n - 1, n} :
        IF a = b THEN (IF (Ls[a][1] = 0 \/ Ls[a][2] # 0) /\ j = 1 THEN Sh(a, n, LAMBDA i : Ls[a]) ELSE TRUE)
        ELSE Sh(a + b + j, n, LAMBDA i : IF i = j THEN Ls[b] ELSE Ls[a])

ASSUME CASE Focus = "giant" -> Giant(0)
         [] Focus = "update" -> Update(0)
         [] Focus = "hash8" -> Hash8(0)
         [] Focus = "exact" -> Exact(0)
         [] Focus = "shape" -> Shape(0)
=============================================================================
