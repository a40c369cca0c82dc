-------------------------------- MODULE GenCt --------------------------------
(***************************************************************************)
(* Calls of equal public shape on different secrets; all calls of a shape  *)
(* in one script.                                                          *)
(***************************************************************************)
EXTENDS GenLib

Ct(f, hl, k, kind, i) == [op |-> "ct", f |-> f, hl |-> hl, k |-> k, kind |-> kind, i |-> i]
Compare(d) == \A f \in {"eq", "ne", "eqs", "nes"} : \A hl \in 1..32 :
  Emit(FlattenSeq([k \in 1..T(2, 12) |->
        << Ct(f, hl, 3 + k, "copy", 0), Ct(f, hl, 3 + k, "not", 0), Ct(f, hl, 3 + k, "zero", 0), Ct(f, hl, 3 + k, "other", k), Ct(f, hl, 3 + k, "other", k + 50) >>
        \o [j \in 1..hl |-> Ct(f, hl, 3 + k, "flip", 8 * (j - 1) + ((j + k) % 8))]
        \o [j \in 1..hl |-> Ct(f, hl, 3 + k, "tail", j - 1)]
        \o [j \in 1..hl |-> Ct(f, hl, 3 + k, "head", j - 1)]]))

(* secrets: <<key stream, message stream>>                                 *)
Secrets == << <<3, 4>>, <<0, 0>>, <<1, 1>>, <<5, 0>>, <<0, 5>>, <<1000, 1001>>, <<2000, 2000>>, <<2031, 2063>>, <<1128, 1255>>, <<1097, 1032>> >>
Secret(v) == IF v <= Len(Secrets) THEN Secrets[v] ELSE <<2 + Rnd(v, 900), IF Rnd(v, 4) = 0 THEN 2000 + Rnd(v + 1, 1500) ELSE 2 + Rnd(v + 2, 900)>>
Cth(kind, kl, hl, pieces, force, s) == [op |-> "cth", kind |-> kind, kl |-> kl, hl |-> hl, pieces |-> pieces, force |-> force, kk |-> s[1], k |-> s[2]]
Shape(kind, kl, hl, pieces, force, n) == Emit([v \in 1..n |-> Cth(kind, kl, hl, pieces, force, Secret(v))])

Pieces == << <<0>>, <<1>>, <<63>>, <<64>>, <<65>>, <<128>>, <<3, 61>>, <<64, 64>>, <<40, 0, 90>>, <<200, 1>>, <<65, 63, 129>> >>
SpPieces == << <<0>>, <<64>>, <<512>>, <<513>>, <<700, 300>>, <<1025>>, <<1, 1030, 64>>, <<1500>> >>
Hash(d) ==
  /\ \A p \in DOMAIN Pieces : \A kl \in {0, 1, 16, 32} : \A fo \in {TRUE, FALSE} :
       Shape("S", kl, IF p % 2 = 0 THEN 32 ELSE 1 + Rnd(p * 7 + kl, 32), Pieces[p], fo, T(10, 60))
  /\ \A p \in DOMAIN SpPieces : \A kl \in {0, 32} : Shape("T", kl, 32 - p, SpPieces[p], kl = 32 /\ p % 2 = 0, T(6, 40))
  /\ \A p \in DOMAIN Pieces : p % T(3, 1) = 0 => \A kl \in {0, 17} : Shape("u8", kl, 32 - p, Pieces[p], FALSE, T(6, 40))
  /\ \A n \in {0, 1, 64, 100, 192} : Shape("h8", 0, 32, <<n>>, FALSE, T(6, 40))
  /\ \A n \in {64, 192} : \A kl \in {0, 32} : Shape("e4", kl, 20, <<n>>, FALSE, T(6, 40)) /\ Shape("e8", kl, 20, <<n>>, FALSE, T(6, 40))

ASSUME IF IOEnv.FOCUS = "cmp" THEN Compare(0) ELSE Hash(0)
=============================================================================
