------------------------------ MODULE GenCmpApi ------------------------------
(***************************************************************************)
(* The compression routines as the library itself dispatches to them:      *)
(* every routine behind the public API (single, eight-way, vectorised,     *)
(* exact 4 and 8) on full blocks of varied content, digests evaluated.     *)
(***************************************************************************)
EXTENDS GenLib

I8 == <<1, 2, 3, 4, 5, 6, 7, 8>>
Id(c, i) == c \o ToString(i)
Ids(c) == [i \in 1..8 |-> Id(c, i)]
Each8(F(_)) == FlattenSeq([i \in 1..8 |-> F(i)])

Script(v) ==
  LET k(i) == 3 + Rnd(v * 8 + i, 900)
      ins(n) == [i \in 1..8 |-> <<k(i), v, n>>]
      ps == Each8(LAMBDA i : << oPNew(Id("p", i)) >> \o RndPlain(Id("p", i), v * 8 + i))
  IN  Emit(ps \o << oH8(Ids("p"), ins(64)), oH8(Ids("p"), ins(192)) >>
           \o << oExact("p1", ins(64)), oExact("p1", ins(128)), oExact("p2", SubSeq(ins(64), 1, 4)), oExact("p3", SubSeq(ins(192), 3, 6)) >>
           \o Each8(LAMBDA i : << oSt(Id("p", i), Id("s", i)) >>)
           \o << oU8(Ids("s"), ins(129)), oF8(Ids("s")), oFin("s1"), oFin("s8"), oSOne(k(1), 0, 1024 + v) >>
           \o << oForce("s2"), oUpd("s2", k(2), 700, 128, 0), oFin("s2"), oUpd("s3", k(3), 700, 128, 0), oFin("s3") >>)

ASSUME \A v \in 1..T(120, 2500) : Script(v)
=============================================================================
