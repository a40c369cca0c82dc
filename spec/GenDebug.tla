------------------------------- MODULE GenDebug ------------------------------
(***************************************************************************)
(* Pairs of objects with the same history of calls, which differ only in   *)
(* the bytes of keys and messages: side x uses one content, side y another.*)
(***************************************************************************)
EXTENDS GenLib

Lens == <<0, 1, 32, 63, 64, 65, 127, 128, 129, 200>>
SpLens == <<0, 1, 64, 512, 513, 961, 1023, 1024, 1025, 1600>>
KeyOf(c, n) == CASE c = 0 -> [i \in 1..n |-> 0] [] c = 1 -> [i \in 1..n |-> 255] [] OTHER -> Bytes(c, n)
KLens == <<0, 1, 16, 31, 32>>
(* contents of the two sides: message stream and key number *)
Sides == << <<0, 3>>, <<3, 4>>, <<1, 0>> >>

D == << oDbg("x", "y") >>
P2(sd, sets, kn) ==      \* builders px, py with equal settings and different keys
  FlattenSeq([i \in 1..2 |-> LET p == <<"px", "py">>[i] IN
    << oPNew(p) >> \o [j \in DOMAIN sets |-> [sets[j] EXCEPT !.x = p]]
    \o (IF kn = 0 THEN <<>> ELSE << oSet(p, "key", KeyOf(sd[i], kn)) >>) \o << oSt(p, <<"x", "y">>[i]) >>])
Q2(sd, hl, kn) ==
  FlattenSeq([i \in 1..2 |-> LET q == <<"qx", "qy">>[i] IN
    << oQNew(q), oSet(q, "hash_length", N64(hl)) >>
    \o (IF kn = 0 THEN <<>> ELSE << oSet(q, "key", KeyOf(sd[i], kn)) >>) \o << oTSt(q, <<"x", "y">>[i]) >>])
U2(sd, o, n, via) == << oUpd("x", sd[1], o, n, via), oUpd("y", sd[2], o, n, via) >>
F2 == << oFin("x"), oFin("y") >>

Walk(sd, v, lens) ==     \* what both sides then go through
  FlattenSeq([j \in 1..5 |-> LET n == lens[1 + Rnd(v * 5 + j, Len(lens))] IN
     U2(sd, 1000 * j, n, 0) \o D \o (IF Rnd(v + 3 * j, 3) = 0 THEN F2 \o D ELSE <<>>)])

Plain == \A s \in DOMAIN Sides : \A k \in DOMAIN KLens : \A v \in 1..T(8, 60) :
  LET sd == Sides[s] sets == IF v % 3 = 0 THEN <<>> ELSE RndPlain("p", v) IN
  /\ Emit(P2(sd, sets, KLens[k]) \o D \o Walk(sd, v + 11 * k, Lens))
  /\ Emit(P2(sd, sets, KLens[k]) \o Walk(sd, v + 17 * k, Lens) \o << oClone("x", "c"), oDbg("x", "c"), oDbg("y", "c"), oLn("x", TRUE), oLn("y", TRUE) >> \o D
          \o F2 \o << oLn("x", FALSE), oLn("y", FALSE) >> \o D \o << oForce("x") >> \o U2(sd, 9, 70, 1) \o D)
  /\ Emit(Q2(sd, 1 + Rnd(v, 32), KLens[k]) \o << oDbg("qx", "qy") >> \o D \o Walk(sd, v + 13 * k, SpLens) \o << oForce("x") >> \o U2(sd, 9, 1100, 1) \o D)

Single == \A s \in DOMAIN Sides : \A a \in DOMAIN Lens : \A k \in DOMAIN KLens :
  /\ Emit(P2(Sides[s], <<>>, KLens[k]) \o U2(Sides[s], 0, Lens[a], 0) \o D \o F2 \o D)
  /\ Emit(Q2(Sides[s], 32, KLens[k]) \o U2(Sides[s], 0, SpLens[a], 0) \o D \o F2 \o D)

(* eight-way operations *)
Lane(c, i) == c \o ToString(i)
Eight == \A s \in DOMAIN Sides : \A a \in DOMAIN Lens : \A b \in DOMAIN Lens :
  LET sd == Sides[s]
      lens == [i \in 1..8 |-> IF i = 1 + (a % 8) THEN Lens[a] ELSE Lens[b]]
      xs == [i \in 1..8 |-> Lane("x", i)]  ys == [i \in 1..8 |-> Lane("y", i)]
      dd == [i \in 1..8 |-> oDbg(xs[i], ys[i])]
  IN  Emit([i \in 1..16 |-> oSNew(IF i <= 8 THEN xs[i] ELSE ys[i - 8])]
           \o << oU8(xs, [i \in 1..8 |-> <<sd[1], 0, lens[i]>>]), oU8(ys, [i \in 1..8 |-> <<sd[2], 0, lens[i]>>]) >> \o dd
           \o << oF8(xs), oF8(ys) >> \o dd)

ASSUME Plain /\ Single /\ Eight
=============================================================================
