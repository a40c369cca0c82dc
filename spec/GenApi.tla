------------------------------- MODULE GenApi --------------------------------
(***************************************************************************)
(* Random walks of the whole API machine: every kind of call on a small    *)
(* population of objects.  A walk is a function of VERIF_SEED and its      *)
(* number; TLC steps the Api machine along it, so that only allowed calls  *)
(* are emitted and every abstract state is a reachable Api state.          *)
(***************************************************************************)
EXTENDS Api, GenLib

VARIABLES w, step, hist
vars == <<obj, w, step, hist>>

(* FOCUS "small": few, short walks with short inputs, for interpreted and  *)
(* instrumented executions.                                                *)
Small == IOEnv.FOCUS = "small"
NWalks == IF Small THEN T(24, 512) ELSE T(300, 4000)
Depth == IF Small THEN 30 ELSE T(45, 80)

R(i, m) == Rnd(w * 131 + step * 17 + i * 7919, m)
SH == <<"s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10">>
TH == <<"t1", "t2">>
PB == <<"p1", "p2", "p3">>
QB == <<"q1", "q2">>
HH == <<"h1", "h2", "h3">>
Sizes == <<0, 1, 7, 32, 63, 64, 65, 127, 128, 129, 191, 192, 256, 511, 512, 513, 961, 1024, 1025, 1537, 2500>>
SmallSizes == <<0, 1, 31, 63, 64, 65, 66, 100, 127, 128, 129, 192, 0, 1, 64, 65>>
Size(i) == IF Small THEN (IF R(i, 31) = 0 THEN Sizes[16 + R(i + 2, 5)] ELSE SmallSizes[1 + R(i + 2, 16)])
           ELSE IF R(i, 3) = 0 THEN R(i + 1, 700) ELSE Sizes[1 + R(i + 2, 21)]
Content(i) == IF R(i + 90, 5) # 0 THEN (IF R(i + 94, 4) = 0 THEN 1302 ELSE 2) + R(i, 30) ELSE <<0, 1, 1000 + R(i + 91, 256), 2000 + R(i + 92, 600), 10000 + R(i + 91, 625), 11003 + R(i + 91, 900)>>[1 + R(i + 93, 6)]
Seg(i) == <<Content(i), R(i + 1, 100), Size(i + 2)>>
Pick(s, i) == s[1 + R(i, Len(s))]

(* eight different hashers out of ten *)
Group(i) == LET a == R(i, 10)  d == <<1, 3, 7, 9>>[1 + R(i + 1, 4)] IN [k \in 1..8 |-> SH[1 + ((a + k * d) % 10)]]

Fs == <<"hash_length", "key", "salt", "personal", "fanout", "max_depth", "max_leaf_length", "node_offset", "node_depth", "inner_hash_length", "last_node">>
Arg(f) ==
  CASE f = "hash_length" -> N64(Pick(<<0, 1, 16, 31, 32, 32, 33, 288>>, 30))
    [] f = "key" -> RndBytes(R(31, 1000), Pick(<<0, 0, 1, 16, 31, 32, 33, 64>>, 30))
    [] f \in {"salt", "personal"} -> RndBytes(R(31, 1000), Pick(<<0, 1, 4, 7, 8, 8, 9>>, 30))
    [] f = "fanout" -> N64(R(30, 256))
    [] f = "max_depth" -> N64(Pick(<<0, 1, 2, 127, 128, 255>>, 30))
    [] f = "max_leaf_length" -> <<0, 0, R(30, 65536), R(31, 65536)>>
    [] f = "node_offset" -> <<Pick(<<0, 0, 0, 1>>, 33), R(30, 65536), R(31, 65536), R(32, 65536)>>
    [] f = "node_depth" -> N64(R(30, 256))
    [] f = "inner_hash_length" -> N64(Pick(<<0, 1, 16, 32, 33>>, 30))
    [] f = "last_node" -> N64(R(30, 2))

ExactIns(n) == LET len == Pick(<<64, 64, 128, 192, 320, 0, 65, 63>>, 40)  odd == R(41, 30) IN
  [k \in 1..n |-> <<2 + R(41 + k, 30), R(50 + k, 9), IF odd = k THEN 64 + len ELSE len>>]

Kinds == <<"upd", "upd", "upd", "upd", "updt", "updt", "fin", "fint", "cnt", "ln", "clone", "st", "tst", "pset", "pset", "pset", "qset", "pclone",
           "u8", "u8", "f8", "h8", "h8plain", "exact4", "exact8", "force", "forcet", "one", "sone", "hash", "hget", "heq", "par", "snew", "tnew", "pnew", "qnew", "heqs">>
Op ==
  LET k == Pick(Kinds, 1) IN
  CASE k = "upd" -> LET g == Seg(3) IN oUpd(Pick(SH, 2), g[1], g[2], g[3], R(9, 9))
    [] k = "updt" -> LET g == Seg(3) IN oUpd(Pick(TH, 2), g[1], g[2], g[3], R(9, 9))
    [] k = "fin" -> oFin(Pick(SH, 2))
    [] k = "fint" -> oFin(Pick(TH, 2))
    [] k = "cnt" -> oCnt(Pick(SH \o TH, 2))
    [] k = "ln" -> oLn(Pick(SH, 2), R(3, 2) = 0)
    [] k = "clone" -> oCloneTo(Pick(SH, 2), Pick(SH, 3), R(4, 2))
    [] k = "pclone" -> oCloneTo(Pick(PB, 2), Pick(PB, 3), R(4, 2))
    [] k = "st" -> oSt(Pick(PB, 2), Pick(SH, 3))
    [] k = "tst" -> oTSt(Pick(QB, 2), Pick(TH, 3))
    [] k = "pset" -> LET f == Pick(Fs, 3) IN oSet(Pick(PB, 2), f, Arg(f))
    [] k = "qset" -> LET f == Pick(<<"hash_length", "key">>, 3) IN oSet(Pick(QB, 2), f, Arg(f))
    [] k = "u8" -> oU8(Group(2), [i \in 1..8 |-> Seg(10 + 5 * i)])
    [] k = "f8" -> oF8(Group(2))
    [] k \in {"h8", "h8plain"} -> LET n == Size(70) IN
         oH8([i \in 1..8 |-> IF k = "h8" THEN Pick(PB, 2 + i) ELSE "p0"], [i \in 1..8 |-> IF R(60, 2) = 0 THEN Seg(10 + 5 * i) ELSE <<2 + i, 0, n>>])
    [] k = "exact4" -> oExact(Pick(PB, 2), ExactIns(4))
    [] k = "exact8" -> oExact(Pick(PB, 2), ExactIns(8))
    [] k = "force" -> oForce(Pick(SH, 2))
    [] k = "forcet" -> oForce(Pick(TH, 2))
    [] k = "one" -> LET g == Seg(3) IN oOne(g[1], g[2], g[3])
    [] k = "sone" -> LET g == Seg(3) IN oSOne(g[1], g[2], g[3])
    [] k = "hash" -> oHash(Pick(SH \o TH, 2), Pick(HH, 3))
    [] k = "hget" -> oHGet(Pick(HH, 2))
    [] k = "heq" -> oHEq(Pick(HH, 2), Pick(HH, 3))
    [] k = "heqs" -> oHEqS(Pick(HH, 2), Bytes(R(3, 9), R(4, 34)))
    [] k = "par" -> LET g == Group(2) IN oPar([i \in 1..5 |-> [s |-> IF i <= 4 THEN g[i] ELSE Pick(TH, 3), in |-> [j \in 1..3 |-> Seg(10 + 9 * i + 3 * j)]]])
    [] k = "snew" -> oSNew(Pick(SH, 2))
    [] k = "tnew" -> oTNew(Pick(TH, 2))
    [] k = "pnew" -> oPNew(Pick(PB, 2))
    [] k = "qnew" -> oQNew(Pick(QB, 2))

Setup == << oPNew("p0"), oPNew("p1"), oPNew("p2"), oPNew("p3"), oQNew("q1"), oQNew("q2"), oTNew("t1"), oTNew("t2") >>
         \o [i \in 1..10 |-> oSNew(SH[i])] \o << oHash("s1", "h1"), oHash("s1", "h2"), oHash("t1", "h3") >>
Finish == FlattenSeq([i \in 1..10 |-> << oFin(SH[i]), oCnt(SH[i]) >>]) \o FlattenSeq([i \in 1..2 |-> << oFin(TH[i]), oCnt(TH[i]) >>])
          \o [i \in 1..3 |-> oHGet(HH[i])]

(* The Api action of a call (returned values do not matter here).          *)
Act(o) ==
  CASE o.op = "pnew" -> PNew(o.r)
    [] o.op = "qnew" -> QNew(o.r)
    [] o.op = "snew" -> SNew(o.r)
    [] o.op = "tnew" -> TNew(o.r)
    [] o.op = "pset" -> PSet(o.x, o.f, o.v)
    [] o.op = "clone" -> CloneObj(o.x, o.r)
    [] o.op = "st" -> ToState(o.x, o.r)
    [] o.op = "tst" -> ToSpState(o.x, o.r)
    [] o.op = "upd" -> Upd(o.x, o.in)
    [] o.op = "ln" -> SetLast(o.x, o.b)
    [] o.op = "u8" -> Upd8(o.xs, o.ins)
    [] o.op = "par" -> Par(o.jobs)
    [] o.op = "hash" -> IsHasher(o.x) /\ KeepHash(o.r, <<>>)
    [] o.op = "f8" -> (\A i \in 1..8 : Live(o.xs[i], "S")) /\ Observe
    [] OTHER -> Observe

SetupObjects ==
  [x \in {"p0", "p1", "p2", "p3"} |-> [kind |-> "P", v |-> DefaultParams]]
  @@ [x \in {"q1", "q2"} |-> [kind |-> "Q", v |-> DefaultSpParams]]
  @@ [x \in ToSet(SH) |-> NewHasher(DefaultParams)]
  @@ [x \in ToSet(TH) |-> NewSpHasher(DefaultSpParams)]
  @@ [x \in ToSet(HH) |-> [kind |-> "H", b |-> <<>>]]

Init == obj = SetupObjects /\ w \in 1..NWalks /\ step = 0 /\ hist = Setup
Next == /\ step < Depth
        /\ LET o == Op IN /\ Act(o)
                          /\ hist' = Append(hist, o)
                          /\ (IF step + 1 = Depth THEN Emit(hist' \o Finish) ELSE TRUE)
        /\ step' = step + 1
        /\ UNCHANGED w
Spec == Init /\ [][Next]_vars
View == <<w, step>>

(* Along every walk the machine keeps its shape.                           *)
AllWalks == TLCGet("stats").distinct = NWalks * (Depth + 1)
TypeOK == \A x \in DOMAIN obj : obj[x].kind \in {"P", "Q", "S", "T", "H"}
              /\ (obj[x].kind = "S" => obj[x].p.hl \in 1..32 /\ Len(obj[x].p.key) <= 32)
=============================================================================
