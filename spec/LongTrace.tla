------------------------------ MODULE LongTrace ------------------------------
(***************************************************************************)
(* Validation of recorded runs with long messages: a trace is accepted if  *)
(* it is a behaviour of Long with exactly the digests and counts Long      *)
(* defines.  Rejections marked "witness" or "script" concern the           *)
(* machinery, not the library.                                             *)
(* MODE, COUNTS, DIGESTS: as in Trace; in the modes "fun" and "hist"       *)
(* digests are learnt, and no witnesses are needed.                        *)
(***************************************************************************)
EXTENDS Long, Json, IOUtils

VARIABLES t, l, fn          \* fn: digests learnt
Files == JsonDeserialize(IOEnv.MANIFEST)
Traces == TLCEval([i \in 1..Len(Files) |-> ndJsonDeserialize(Files[i])])
TotalStates == FoldLeft(LAMBDA a, tr : a + Len(tr) + 1, 0, Traces)
vars == <<obj, wit, t, l, fn>>
Mode == IOEnv.MODE
CheckDigests == IOEnv.DIGESTS # "off"
CheckCounts == IOEnv.COUNTS # "off"
e == Traces[t][l]

Init == obj = None /\ wit = None /\ fn = None /\ t \in 1..Len(Traces) /\ l = 1

Reject(exp) == PrintT("REJECT " \o ToJson([t |-> t, l |-> l, expected |-> exp])) /\ FALSE
Need(b, what) == IF b THEN TRUE ELSE Reject(what)
Keep == UNCHANGED <<wit, fn>>
Same == UNCHANGED <<obj, wit, fn>>
Returns == Need(e.ok, "must not panic")

AddLinks(w, c, lks) == FoldLeft(LAMBDA a, lk : (<<c, lk.j + 1>> :> lk.g) @@ (<<c, lk.j>> :> lk.h) @@ a, w, lks)
(* where two links meet, they agree *)
Joined(lks) == \A i \in 1..(Len(lks) - 1) : lks[i].j + 1 = lks[i + 1].j => lks[i].g = lks[i + 1].h
I8 == 1..8

(* The calls returned the digests ds of hashers in the states os.          *)
What(o) == <<o.kind, o.key, o.k, o.ln, IF Mode = "hist" THEN o.p ELSE <<o.n>> >>
LearnIn(f, os, ds) == FoldLeft(LAMBDA a, i : IF What(os[i]) \in DOMAIN a THEN a ELSE (What(os[i]) :> ds[i]) @@ a, f, [i \in 1..Len(os) |-> i])
Digests(os, ds) ==
  IF ~CheckDigests THEN UNCHANGED <<wit, fn>>
  ELSE IF Mode = "abs"
  THEN /\ Need(\A i \in DOMAIN os : Known(os[i]), "script")
       /\ LET d == [i \in DOMAIN os |-> Fin(os[i])] IN Need(ds = d, d)
       /\ UNCHANGED <<wit, fn>>
  ELSE /\ fn' = TLCEval(LearnIn(fn, os, ds))
       /\ LET d == [i \in DOMAIN os |-> fn'[What(os[i])]] IN Need(Len(ds) = Len(os) /\ ds = d, d)
       /\ UNCHANGED wit
Alone(p, g) == Input(NewS(p), g)
Input8(o, i) == [o EXCEPT ![e.xs[i]] = Input(@, e.lins[i])]

Step ==
  CASE e.op = "reset" -> obj' = None /\ Keep
    [] e.op = "config" -> obj' = None /\ fn' = None /\ UNCHANGED wit
    [] e.op = "wits" ->
         /\ \A i \in DOMAIN e.chains : Need(Joined(e.links[i]) /\ \A j \in DOMAIN e.links[i] : LinkOK(e.chains[i], e.links[i][j]), "witness")
         /\ wit' = FoldLeft(LAMBDA w, i : AddLinks(w, e.chains[i], e.links[i]), wit, [i \in 1..Len(e.chains) |-> i])
         /\ UNCHANGED <<obj, fn>>
    [] e.op = "drop" -> obj' = [y \in (DOMAIN obj) \ {e.x} |-> obj[y]] /\ Keep
    [] e.op = "pnew" -> Returns /\ Put(e.r, NewP) /\ Keep
    [] e.op = "pset" -> /\ Returns /\ Live(e.x, "P")
                        /\ obj' = [obj EXCEPT ![e.x] = CASE e.f = "key" -> [@ EXCEPT !.key = e.v] [] e.f = "last_node" -> [@ EXCEPT !.ln = (e.v[4] = 1)]]
                        /\ Keep
    [] e.op = "snew" -> Returns /\ Put(e.r, NewS(NewP)) /\ Keep
    [] e.op = "tnew" -> Returns /\ Put(e.r, NewT) /\ Keep
    [] e.op = "st" -> Returns /\ Live(e.x, "P") /\ Put(e.r, NewS(obj[e.x])) /\ Keep
    [] e.op = "clone" -> Returns /\ Put(e.r, obj[e.x]) /\ Keep
    [] e.op = "forcep" -> Returns /\ Same
    [] e.op = "upd" -> /\ Returns /\ Need(Fits(obj[e.x], e.lin), "script")
                       /\ Need(e.wn = LU64(GLen(e.lin)), LU64(GLen(e.lin)))
                       /\ obj' = [obj EXCEPT ![e.x] = Input(@, e.lin)] /\ Keep
    [] e.op = "ln" -> Returns /\ Live(e.x, "S") /\ obj' = [obj EXCEPT ![e.x].ln = e.b] /\ Keep
    [] e.op = "cnt" -> Returns /\ Need(CheckCounts => e.c = Count(obj[e.x]), Count(obj[e.x])) /\ Same
    [] e.op = "fin" -> Returns /\ Digests(<< obj[e.x] >>, << e.d >>) /\ UNCHANGED obj
    [] e.op = "f8" -> Returns /\ Digests([i \in I8 |-> obj[e.xs[i]]], e.d) /\ UNCHANGED obj
    [] e.op = "one" -> Returns /\ Need(FromZero(e.lin), "script") /\ Digests(<< Alone(NewP, e.lin) >>, << e.d >>) /\ UNCHANGED obj
    [] e.op = "sone" -> Returns /\ Need(FromZero(e.lin), "script") /\ Digests(<< Input(NewT, e.lin) >>, << e.d >>) /\ UNCHANGED obj
    [] e.op = "u8" -> /\ Returns /\ Need(\A i \in I8 : Fits(obj[e.xs[i]], e.lins[i]), "script")
                      /\ obj' = FoldLeft(Input8, obj, <<1, 2, 3, 4, 5, 6, 7, 8>>) /\ Keep
    [] e.op = "h8" -> /\ Returns /\ Need(\A i \in I8 : FromZero(e.lins[i]) /\ obj[e.ps[i]].key = <<>>, "script")
                      /\ Digests([i \in I8 |-> Alone(obj[e.ps[i]], e.lins[i])], e.d) /\ UNCHANGED obj
    [] e.op = "exact" -> /\ Returns /\ Live(e.x, "P") /\ Need(\A i \in DOMAIN e.lins : FromZero(e.lins[i]), "script")
                         /\ Digests([i \in DOMAIN e.lins |-> Alone(obj[e.x], e.lins[i])], e.d) /\ UNCHANGED obj
    [] e.op = "par" ->
         LET o == FoldLeft(LAMBDA a, jb : [a EXCEPT ![jb.s] = FoldLeft(LAMBDA h, g : Input(h, g), @, jb.lin)], obj, e.jobs) IN
         /\ Returns /\ Digests([i \in DOMAIN e.jobs |-> o[e.jobs[i].s]], e.d)
         /\ obj' = o
    [] OTHER -> Reject("script") /\ Same

Next == l <= Len(Traces[t]) /\ Step /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
View == <<t, l>>
Accepted == TLCGet("stats").distinct = TotalStates
=============================================================================
