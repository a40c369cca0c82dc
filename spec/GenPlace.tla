------------------------------- MODULE GenPlace -------------------------------
(***************************************************************************)
(* Where inputs and objects are in memory.  "al": the addresses of inputs  *)
(* modulo 64, "pl": of the new object.  All inputs aligned, all but one,   *)
(* none, at random; what a call does must not depend on it.                *)
(* FOCUS: api (calls of the library), cmp (single implementations).        *)
(***************************************************************************)
EXTENDS GenLib

I8 == <<1, 2, 3, 4, 5, 6, 7, 8>>
Id(c, i) == c \o ToString(i)
Ids(c) == [i \in 1..8 |-> Id(c, i)]
Each8(F(_)) == FlattenSeq([i \in 1..8 |-> F(i)])

At(op, al) == op @@ [al |-> al]
In(op, pl) == op @@ [pl |-> pl]

(* places of n inputs: base alignment a (a divisor of 64), input j off by d, or all at random *)
Odd(n, a, j, d) == [i \in 1..n |-> IF i = j THEN d ELSE (a * (i % 3)) % 64]
Strewn(n, v) == [i \in 1..n |-> Rnd(v * 8 + i, 64)]
Offs == <<1, 2, 3, 4, 8, 12, 16, 24, 32, 48, 63>>

Exact(v, n, len, al) ==
  Emit(<< oPNew("p") >> \o (IF v % 3 = 0 THEN RndKey("p", v) ELSE <<>>)
       \o << At(oExact("p", [i \in 1..n |-> <<10 + i, 0, len>>]), al) >>
       \o FlattenSeq([i \in 1..n |-> << oSt("p", "z"), oUpd("z", 10 + i, 0, len, 0), oFin("z"), oDrop("z") >>]))
Hash8(v, lens, al) ==
  Emit(Each8(LAMBDA i : << oPNew(Id("p", i)) >>)
       \o << At(oH8(Ids("p"), [i \in 1..8 |-> <<10 + i, 0, lens[i]>>]), al) >>
       \o Each8(LAMBDA i : << oOne(10 + i, 0, lens[i]) >>))
Upd8(v, lens, al, pls) ==
  Emit(Each8(LAMBDA i : << In(oSNew(Id("a", i)), pls[i]) >>)
       \o << At(oU8(Ids("a"), [i \in 1..8 |-> <<10 + i, 0, lens[i]>>]), al), At(oU8(Ids("a"), [i \in 1..8 |-> <<10 + i, lens[i], 130>>]), al), oF8(Ids("a")) >>
       \o Each8(LAMBDA i : << oFin(Id("a", i)), oSNew("z"), oUpd("z", 10 + i, 0, lens[i] + 130, 0), oFin("z"), oDrop("z") >>))
Same8(n) == [i \in 1..8 |-> n]
Obj8(v) == [i \in 1..8 |-> 8 * Rnd(v * 8 + i, 8)]
(* one or two pieces, every place of the input and of the hasher *)
Single(pl, a) == Emit(<< In(oSNew("s"), pl), At(oUpd("s", 3, 0, 200, 0), <<a>>), oFin("s"), At(oUpd("s", 3, 200, 129, 1), <<(a * 5 + 3) % 64>>), oFin("s"),
                         oSNew("z"), oUpd("z", 3, 0, 200, 0), oFin("z"), oUpd("z", 3, 200, 129, 0), oFin("z"),
                         At(oOne(3, 0, 200), <<(a + 7) % 64>>) >>)
Tree(pl, a) == Emit(<< In(oTNew("t"), pl), At(oUpd("t", 3, 0, 2500, 0), <<a>>), oFin("t"), At(oUpd("t", 3, 2500, 1029, 1), <<(a * 5 + 3) % 64>>), oFin("t"),
                       oTNew("z"), oUpd("z", 3, 0, 2500, 0), oFin("z"), oUpd("z", 3, 2500, 1029, 0), oFin("z"),
                       At(oSOne(3, 0, 2500), <<(a + 7) % 64>>) >>)
Odds(F(_)) == /\ \A n \in {4, 8} : \A j \in 0..8 : IF j > n THEN TRUE ELSE \A b \in {16, 32, 64} : \A d \in DOMAIN Offs :
                   (d = 1 \/ j > 0) => F([n |-> n, j |-> j, al |-> Odd(n, b, j, Offs[d]), v |-> n + 7 * j + b + d])
              /\ \A n \in {4, 8} : \A v \in 1..T(60, 600) : F([n |-> n, j |-> 0, al |-> Strewn(n, v), v |-> v])
Api(go) ==
  /\ Odds(LAMBDA x : Exact(x.v, x.n, 64 * (1 + (x.v % 3)), x.al))
  /\ Odds(LAMBDA x : IF x.n = 4 THEN TRUE ELSE /\ Hash8(x.v, Same8(64 * (1 + (x.v % 3)) + (x.v % 2)), x.al)
                                               /\ Upd8(x.v, Same8(65 + 64 * (x.v % 3)), x.al, IF x.j % 2 = 0 THEN Same8(32) ELSE Obj8(x.v)))
  /\ \A pl \in {0, 8, 16, 24, 32, 40} : \A a \in 0..63 : (pl = 0 \/ a % 4 = (pl \div 8) % 4) => Single(pl, a) /\ Tree(pl, a)
  (* the lanes of update8 each in another place, one odd *)
  /\ \A j \in 1..8 : \A d \in {8, 16, 24} : Upd8(j + d, Same8(193), Same8(0), [i \in 1..8 |-> IF i = j THEN d ELSE 32])

---------------------------------------------------------------------------
Impls == << <<"compress_portable", 1>>, <<"compress_sse41", 1>>, <<"compress4_sse41", 4>>, <<"compress8_portable", 8>>, <<"compress8_avx2", 8>>,
            <<"compress8_vectorized_avx2", 8>> >>
Lane(i) == [h |-> <<3 + i, 5>>, m |-> <<20 + i, 9>>, t |-> <<0, 0, i, 64>>, f0 |-> i % 2 = 0, f1 |-> i % 3 = 0]
(* places of the chaining values (multiples of 4) and of the blocks *)
CmpAt(hs, ms) == Emit(FlattenSeq([x \in DOMAIN Impls |-> LET n == Impls[x][2] IN
     << At(oCmp(Impls[x][1], [i \in 1..n |-> Lane(i)]), [i \in 1..n |-> << 4 * (hs[i] \div 4), ms[i]>>]) >>]))
Cmp(go) ==
  /\ \A j \in 0..8 : \A b \in {16, 32, 64} : \A d \in DOMAIN Offs : (d = 1 \/ j > 0) => /\ CmpAt(Odd(8, b, 0, 0), Odd(8, b, j, Offs[d]))
                                                                                       /\ CmpAt(Odd(8, b, j, Offs[d]), Odd(8, b, 0, 0))
  /\ \A a \in 0..63 : CmpAt(Odd(8, 64, 1, a), Odd(8, 64, 1, (a * 7) % 64))
  /\ \A v \in 1..T(60, 600) : CmpAt(Strewn(8, v), Strewn(8, v + 1000))

ASSUME IF IOEnv.FOCUS = "cmp" THEN Cmp(0) ELSE Api(0)
=============================================================================
