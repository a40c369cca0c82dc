------------------------------ MODULE GenStream ------------------------------
(***************************************************************************)
(* Scripts that cover every transition of a hasher's control graph.        *)
(*                                                                         *)
(* Control state of a BLAKE2s hasher, as the buffering code sees it:       *)
(*   keyed  : was there a key block                                        *)
(*   b      : bytes in the 64-byte block buffer (0..64)                    *)
(*   c      : blocks already compressed, up to 2                           *)
(*   stale  : buffer holds old bytes beyond b                              *)
(*   fin    : a finalize happened since the last input                     *)
(*   ln     : last-node flag                                               *)
(* TLC enumerates it breadth first; VIEW hides the history.  For every     *)
(* transition out of every control state one script is emitted: a shortest *)
(* history leading to the state, the transition, and probes that observe   *)
(* digest and count, and then continue the message.                        *)
(***************************************************************************)
EXTENDS GenLib

VARIABLES keyed, n, hi, fin, ln, hist
vars == <<keyed, n, hi, fin, ln, hist>>

Focus == IOEnv.FOCUS     \* "stream", "flag", or "fin": compare with a twin never finalized before

MaxN == T(64*3, 64*5)

Total(kk, m) == m + (IF kk THEN 64 ELSE 0)
L == INSTANCE Control       \* the buffering rules, which DStream shows the design to follow
B(kk, m) == L!Held(Total(kk, m), 64)
C(kk, m) == Min2(L!Done(Total(kk, m), 64), 2)

Text == 1302     \* content stream
Key == Bytes(5, 19)
Setup(kk) == IF kk THEN << oPNew("p"), oSet("p", "key", Key), oSt("p", "s") >> ELSE << oSNew("s") >>

(* Extent of bytes ever put in the buffer and not zeroed by a finalize.    *)
NextHi(kk, m, h, d) ==
  LET b == B(kk, m) IN
  IF d = 0 THEN h
  ELSE IF b > 0 /\ b + d > 64 THEN 64
  ELSE Max2(h, B(kk, m + d))

View == <<keyed, B(keyed, n), C(keyed, n), hi > B(keyed, n), fin, ln>>

Lens(b) == (IF n = 0 THEN 0..130 ELSE {}) \cup {0, 1, 2, 33, 63, 64, 65, 127, 128, 129, 192, 193}
           \cup { x \in {63 - b, 64 - b, 65 - b, 127 - b, 128 - b, 129 - b, 192 - b, 193 - b} : x >= 0 }

(* The same calls on a new hasher, without the finalizes.                  *)
Twin(h) == LET u == SelectSeq(h, LAMBDA o : o.op \notin {"fin"}) IN
           [i \in DOMAIN u |-> IF u[i].op = "upd" THEN [u[i] EXCEPT !.x = "r"] ELSE IF u[i].op \in {"snew", "st"} THEN [u[i] EXCEPT !.r = "r"] ELSE u[i]]
           \o << oFin("r"), oCnt("r"), oDrop("r") >>
FinScript(h, m, extra) ==
  LET more == oUpd("s", Text, m, extra, 0) IN
  h \o << oFin("s"), oFin("s"), oCnt("s"), more, oFin("s"), oCnt("s"), oFin("s") >> \o Twin(h) \o Twin(Append(h, more))

Probe(m, extra) ==
  << oCnt("s"), oFin("s"), oFin("s"), oUpd("s", Text, m, extra, 0), oCnt("s"), oFin("s") >>

Op(d) == oUpd("s", Text, n, d, IF Focus = "fin" THEN 0 ELSE (n + 2*d) % 9)

Init == /\ keyed \in BOOLEAN
        /\ n = 0
        /\ hi = (IF keyed THEN 64 ELSE 0)
        /\ fin = FALSE
        /\ ln = FALSE
        /\ hist = Setup(keyed)

Update == \E d \in Lens(B(keyed, n)) :
  /\ LET extra == 1 + ((7 * n + 5 * d) % 70) IN
     Emit(IF Focus = "fin" THEN FinScript(Append(hist, Op(d)), n + d, extra) ELSE hist \o <<Op(d)>> \o Probe(n + d, extra))
  /\ n + d <= MaxN
  /\ n' = n + d
  /\ hi' = NextHi(keyed, n, hi, d)
  /\ fin' = (fin /\ d = 0)
  /\ hist' = Append(hist, Op(d))
  /\ UNCHANGED <<keyed, ln>>

Finalize ==
  /\ Emit(IF Focus = "fin" THEN FinScript(hist \o <<oFin("s")>>, n, 65) ELSE hist \o <<oFin("s")>> \o Probe(n, 65))
  /\ fin' = TRUE
  /\ hi' = B(keyed, n)
  /\ hist' = Append(hist, oFin("s"))
  /\ UNCHANGED <<keyed, n, ln>>

(* A clone carries the whole control state; original and clone then get   *)
(* different input, both are observed, in both orders.                     *)
Clone ==
  /\ Focus # "fin"
  /\ Emit(hist \o << oClone("s", "c"), oUpd("c", Text, n, 64, 0), oFin("s"), oFin("c"), oCnt("c") >> \o Probe(n, 3)
               \o << oCnt("c"), oFin("c") >>)
  /\ Emit(hist \o << oClone("s", "c") >> \o Probe(n, 66) \o << oUpd("c", Text, n, 1, 1), oFin("c"), oDrop("s"), oFin("c"), oCnt("c") >>)
  /\ LET past == IF n % 2 = 0 THEN << oSNew("c") >> ELSE << oPNew("o"), oSet("o", "key", Bytes(9, 9)), oSet("o", "hash_length", N64(5)), oSet("o", "last_node", N64(1)), oSt("o", "c") >> IN
     Emit(hist \o past \o << oUpd("c", 3, 0, (11 * n) % 150, 0), oCloneTo("s", "c", 1), oCnt("c"), oFin("c"), oUpd("c", Text, n, 65, 0), oFin("s"), oFin("c"), oCnt("c") >> \o Probe(n, 3))
  /\ UNCHANGED vars

SetLastNode == Focus = "flag" /\ \E b \in BOOLEAN :
  /\ Emit(hist \o <<oLn("s", b)>> \o Probe(n, 64)
               \o <<oLn("s", ~b), oFin("s"), oUpd("s", Text, n + 64, 7, 0), oFin("s"), oLn("s", b), oFin("s")>>)
  /\ ln' = b
  /\ hist' = Append(hist, oLn("s", b))
  /\ UNCHANGED <<keyed, n, hi, fin>>

Next == Update \/ Finalize \/ Clone \/ SetLastNode
Spec == Init /\ [][Next]_vars

(* Reference digests: each message hashed at once by a fresh hasher.       *)
ASSUME Focus = "fin" \/ \A m \in 0..(MaxN + 193 + 70) :
  Ref(<< oOne(Text, 0, m), oPNew("p"), oSet("p", "key", Key), oSt("p", "r"), oUpd("r", Text, 0, m, 0), oFin("r"), oDrop("r"), oDrop("p") >>)
=============================================================================
