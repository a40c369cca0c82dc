-------------------------------- MODULE GenSp --------------------------------
(***************************************************************************)
(* Scripts that cover every transition of the BLAKE2sp buffering control.  *)
(*                                                                         *)
(* Control state:                                                          *)
(*   b     : bytes in the 1024-byte double buffer, exact at chunk          *)
(*           boundaries +-1, else the middle of the chunk                  *)
(*   c     : 512-byte groups already compressed, up to 2                   *)
(*   how   : which arm filled or emptied the buffer last                   *)
(*   fin   : a finalize happened since the last input                      *)
(*   keyed                                                                 *)
(***************************************************************************)
EXTENDS GenLib

VARIABLES keyed, n, b, c, how, fin, hist
vars == <<keyed, n, b, c, how, fin, hist>>

Focus == IOEnv.FOCUS     \* "stream", or "fin": compare with a twin never finalized before
MaxN == T(3300, 6200)

Text == 1302     \* content stream
Key == Bytes(6, 32)
Setup == IF keyed THEN << oQNew("q"), oSet("q", "key", Key), oTSt("q", "s") >> ELSE << oTNew("s") >>

L == INSTANCE Control       \* the buffering rules, which DSp shows the design to follow
After(b0, d) == L!SpAfter(b0, d, 8, 64)

Class(x) == IF x % 64 \in {0, 1, 63} THEN x ELSE 64 * (x \div 64) + 32
View == <<keyed, Class(b), Min2(c, 2), how, fin>>

Lens == LET r == 1024 - b IN
  { x \in ({0, 1, 63, 64, 65, 448, 511, 512, 513}
           \cup {r - 64, r - 1, r, r + 1, r + 64, r + 447, r + 448, r + 449, r + 512, r + 959, r + 960, r + 961}
           \cup (IF n = 0 THEN { 64 * i + j : i \in 0..16, j \in {0, 1, 32, 63} } \cup {960, 961, 1471, 1472, 1473, 1536, 1985, 2048} ELSE {r + 1471, r + 1473})) : x >= 0 }

Whole(m) == IF keyed THEN << oTSt("q", "r"), oUpd("r", Text, 0, m, 0), oFin("r") >> ELSE << oSOne(Text, 0, m) >>
Probe(m, extra) ==
  << oCnt("s"), oFin("s"), oFin("s"), oUpd("s", Text, m, extra, 0), oCnt("s"), oFin("s") >>
     \o Whole(m) \o Whole(m + extra)

Twin(h) == LET u == SelectSeq(h, LAMBDA o : o.op \notin {"fin"}) IN
           [i \in DOMAIN u |-> IF u[i].op = "upd" THEN [u[i] EXCEPT !.x = "r"] ELSE IF u[i].op \in {"tnew", "tst"} THEN [u[i] EXCEPT !.r = "r"] ELSE u[i]]
           \o << oFin("r"), oCnt("r"), oDrop("r") >>
FinScript(h, m, extra) ==
  LET more == oUpd("s", Text, m, extra, 0) IN
  h \o << oFin("s"), oFin("s"), oCnt("s"), more, oFin("s"), oCnt("s"), oFin("s") >> \o Twin(h) \o Twin(Append(h, more))

Op(d) == oUpd("s", Text, n, d, IF Focus = "fin" THEN 0 ELSE (n + 2*d) % 9)
Extra(d) == CASE (n + d) % 4 = 0 -> 1 [] (n + d) % 4 = 1 -> 512 [] (n + d) % 4 = 2 -> 449 [] OTHER -> 1025

Init == /\ keyed \in BOOLEAN
        /\ n = 0 /\ b = 0 /\ c = 0 /\ how = "new" /\ fin = FALSE
        /\ hist = Setup

Update == \E d \in Lens :
  LET a == After(b, d) IN
  /\ Emit(IF Focus = "fin" THEN FinScript(Append(hist, Op(d)), n + d, Extra(d)) ELSE hist \o <<Op(d)>> \o Probe(n + d, Extra(d)))
  /\ n + d <= MaxN
  /\ n' = n + d
  /\ b' = a.b
  /\ c' = c + a.g
  /\ how' = (IF a.how = "same" THEN how ELSE a.how)
  /\ fin' = (fin /\ d = 0)
  /\ hist' = Append(hist, Op(d))
  /\ UNCHANGED keyed

Finalize ==
  /\ Emit(IF Focus = "fin" THEN FinScript(hist \o <<oFin("s")>>, n, 513) ELSE hist \o <<oFin("s")>> \o Probe(n, 513))
  /\ fin' = TRUE
  /\ hist' = Append(hist, oFin("s"))
  /\ UNCHANGED <<keyed, n, b, c, how>>

Next == Update \/ Finalize
Spec == Init /\ [][Next]_vars
=============================================================================
