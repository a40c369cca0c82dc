------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: every recorded call of the real library must be an    *)
(* Api action whose returned value is the one the specification computes.  *)
(*                                                                         *)
(* MANIFEST (environment) names a JSON list of ndjson trace files.  Each   *)
(* file is one behaviour; all are explored in parallel (one initial state  *)
(* per file).  A call the specification does not allow ends its behaviour  *)
(* with a printed REJECT record; acceptance is the postcondition that      *)
(* every line of every trace was consumed.                                 *)
(*                                                                         *)
(* `cache` remembers digests and chaining values already computed; it is   *)
(* hidden from the state fingerprint (VIEW) and is sound because its keys  *)
(* determine its values (CacheSound, checked by CacheTest.cfg).            *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils

VARIABLES t, l, cache

Files == JsonDeserialize(IOEnv.MANIFEST)
Traces == TLCEval([i \in 1..Len(Files) |-> ndJsonDeserialize(Files[i])])
TotalStates == FoldLeft(LAMBDA a, tr : a + Len(tr) + 1, 0, Traces)

(* MODE "abs": a digest must be the one BLAKE2s defines, evaluated here.    *)
(* MODE "fun": digests are values of an unknown function of (parameters,   *)
(* message, last-node flag): the first call fixes each value, every later  *)
(* call must agree.  This decides the relational properties (splitting,    *)
(* cloning, eight-way = separate, configurations agree, ...) by themselves,*)
(* whether or not the digests are BLAKE2s.                                 *)
(* MODE "hist": the same, but of the exact pieces a message was input in;  *)
(* this separates "equals the same done singly/without finalizing/alone"   *)
(* from "does not depend on the splitting".                                *)
Absolute == IOEnv.MODE = "abs"
ByHistory == IOEnv.MODE = "hist"
(* COUNTS: "abs": count() must be the message length; "fun": an unknown    *)
(* function of the same arguments as a digest; "off": not compared.        *)
Counts == IOEnv.COUNTS
(* DIGESTS "off": digest values are not compared, only that calls return.  *)
CheckDigests == IOEnv.DIGESTS # "off"

EmptyFn == [x \in {} |-> x]
EmptyCache == [cmp |-> EmptyFn, cnt |-> EmptyFn, dig |-> EmptyFn, sdig |-> EmptyFn, ch |-> EmptyFn, lch |-> EmptyFn, leaf |-> EmptyFn]

---------------------------------------------------------------------------
(* Digests with caching.                                                   *)
(* Chain: ck determines initial words, key and content stream; the cache   *)
(* keeps the chaining values after 0, 1, 2, ... full blocks.               *)
ChainHash(ch, ck, h0, key, len, At(_), ln) ==
  LET nb == M!NumBlocks(M!KeyLen(key) + len)
      old == IF ck \in DOMAIN ch THEN ch[ck] ELSE <<h0>>
      new == IF Len(old) >= nb THEN old ELSE M!Chain(old, key, len, At, nb - 1)
      d == ToBytes(M!Final(new[nb], key, len, At, ln))
  IN  [d |-> d, ch |-> IF Len(old) >= nb /\ ck \in DOMAIN ch THEN ch ELSE (ck :> new) @@ ch]

Stream(msg) == IF msg = <<>> THEN <<0, 0, 0>> ELSE msg[1]

(* obs is the value the call returned, used only in mode "fun".            *)
Learn(obs, hl) == IF Len(obs) = hl THEN obs ELSE <<"length", hl>>

Msg(raw) == IF ByHistory THEN raw ELSE Whole(raw)

CDigest(c, p, raw, ln, obs) ==
  LET msg == TLCEval(Msg(raw))
      dk == <<msg, ln, [p EXCEPT !.ln = FALSE]>> IN
  IF dk \in DOMAIN c.dig THEN [d |-> c.dig[dk], c |-> c]
  ELSE IF ~Absolute
  THEN LET d == Learn(obs, p.hl) IN [d |-> d, c |-> [c EXCEPT !.dig = (dk :> d) @@ @]]
  ELSE IF Len(msg) <= 1
  THEN LET g == Stream(msg)
           iw == InitWords(p)
           r == ChainHash(c.ch, <<g[1], g[2], iw, p.key>>, iw, p.key, g[3], LAMBDA x : Pat(g[1], g[2] + x), ln)
           d == Trunc(r.d, p.hl)
       IN  [d |-> d, c |-> [c EXCEPT !.dig = (dk :> d) @@ @, !.ch = r.ch]]
  ELSE LET d == MsgDigest(p, msg, ln)
       IN  [d |-> d, c |-> [c EXCEPT !.dig = (dk :> d) @@ @]]

CLeaf(c, q, g, i) ==    \* leaf i of a one-segment message
  LET lk == <<M!LeafLen(g[3], i), i, g[1], g[2], q>> IN
  IF lk \in DOMAIN c.leaf THEN [d |-> c.leaf[lk], c |-> c]
  ELSE LET iw == InitWords(LeafParams(q, i))
           r == ChainHash(c.lch, <<g[1], g[2], i, q>>, iw, q.key, M!LeafLen(g[3], i),
                          LAMBDA x : Pat(g[1], g[2] + M!LeafPos(i, x)), i = LANES - 1)
       IN  [d |-> r.d, c |-> [c EXCEPT !.leaf = (lk :> r.d) @@ @, !.lch = r.ch]]

CSpDigest(c, q, raw, obs) ==
  LET msg == TLCEval(Msg(raw))
      dk == <<msg, q>> IN
  IF dk \in DOMAIN c.sdig THEN [d |-> c.sdig[dk], c |-> c]
  ELSE IF ~Absolute
  THEN LET d == Learn(obs, q.hl) IN [d |-> d, c |-> [c EXCEPT !.sdig = (dk :> d) @@ @]]
  ELSE IF Len(msg) <= 1
  THEN LET g == Stream(msg)
           r == FoldLeft(LAMBDA a, i : LET z == TLCEval(CLeaf(a.c, q, g, i)) IN [d |-> Append(a.d, z.d), c |-> z.c],
                         [d |-> <<>>, c |-> c], <<0, 1, 2, 3, 4, 5, 6, 7>>)
           d == RootDigest(q, r.d)
       IN  [d |-> d, c |-> [r.c EXCEPT !.sdig = (dk :> d) @@ @]]
  ELSE LET d == MsgSpDigest(q, msg)
       IN  [d |-> d, c |-> [c EXCEPT !.sdig = (dk :> d) @@ @]]

CFin(c, o, obs) == IF o.kind = "S" THEN CDigest(c, o.p, o.msg, o.ln, obs) ELSE CSpDigest(c, o.p, o.msg, obs)

CCount(c, o, obs) ==
  IF Counts = "abs" THEN [d |-> U64(RetCount(o)), c |-> c]
  ELSE IF Counts = "off" THEN [d |-> obs, c |-> c]
  ELSE LET k == <<o.kind, o.p, Msg(o.msg)>> IN
       IF k \in DOMAIN c.cnt THEN [d |-> c.cnt[k], c |-> c]
       ELSE [d |-> obs, c |-> [c EXCEPT !.cnt = (k :> obs) @@ @]]

CLane(c, a) == IF a \in DOMAIN c.cmp THEN [d |-> c.cmp[a], c |-> c]
               ELSE LET w == LaneCompress(a) IN [d |-> w, c |-> [c EXCEPT !.cmp = (a :> w) @@ @]]

(* Fold digest computations for indices 1..n. *)
CMany(c, n, Fn(_, _)) ==
  FoldLeft(LAMBDA a, i : LET z == TLCEval(Fn(a.c, i)) IN [d |-> Append(a.d, z.d), c |-> z.c],
           [d |-> <<>>, c |-> c], [i \in 1..n |-> i])

---------------------------------------------------------------------------
vars == <<obj, t, l, cache>>
e == Traces[t][l]

Init == obj = NoObjects /\ t \in 1..Len(Traces) /\ l = 1 /\ cache = EmptyCache

(* The event is not what the specification allows: report it and stop.     *)
Reject(exp) == /\ PrintT("REJECT " \o ToJson([t |-> t, l |-> l, expected |-> exp]))
               /\ FALSE

Keep == UNCHANGED cache
Returned == e.ok                       \* the call returned (did not panic)

(* digest-returning observer: z is [d, c] *)
Digests(z) == IF ~Returned THEN Reject("must not panic")
              ELSE IF ~CheckDigests THEN Keep
              ELSE IF e.d = z.d THEN cache' = z.c ELSE Reject(z.d)
NoPanic == IF Returned THEN TRUE ELSE Reject("must not panic")

(* heqd compares a hash with a slice the harness derives from its bytes;   *)
(* only the unmodified copy may be equal.                                  *)
HEqExpected(kind) == kind = "copy"

Step ==
  CASE e.op = "reset" -> obj' = NoObjects /\ Keep
    [] e.op = "config" -> obj' = NoObjects /\ Keep
    (* The calls of several threads, on objects of their own: no matter how they interleaved,   *)
    (* what each returned must be what it returns in the order listed, thread by thread.        *)
    [] e.op \in {"fork", "join"} -> Observe /\ Keep
    [] e.op = "drop"  -> Drop(e.x) /\ Keep
    [] e.op = "pnew"  -> NoPanic /\ PNew(e.r) /\ Keep
    [] e.op = "qnew"  -> NoPanic /\ QNew(e.r) /\ Keep
    [] e.op = "pset"  -> /\ IF Returned = SetterAccepts(e.f, e.v) THEN TRUE ELSE Reject(SetterAccepts(e.f, e.v))
                         /\ PSet(e.x, e.f, e.v) /\ Keep
    [] e.op = "clone" -> NoPanic /\ CloneObj(e.x, e.r) /\ Keep
    [] e.op = "snew"  -> NoPanic /\ SNew(e.r) /\ Keep
    [] e.op = "tnew"  -> NoPanic /\ TNew(e.r) /\ Keep
    [] e.op = "st"    -> NoPanic /\ ToState(e.x, e.r) /\ Keep
    [] e.op = "tst"   -> NoPanic /\ ToSpState(e.x, e.r) /\ Keep
    [] e.op = "forcep" -> NoPanic /\ IsHasher(e.x) /\ Observe /\ Keep
    [] e.op = "auto"  -> /\ NoPanic      \* of each type: State, Params, Hash, and BLAKE2sp's State, Params
                         /\ IF \A i \in 1..5 : e.send[i] /\ e.sync[i] THEN TRUE ELSE Reject("Send and Sync")
                         /\ Observe /\ Keep
    [] e.op = "upd"   -> /\ NoPanic
                         /\ IF e.wn = e.in[3] THEN TRUE ELSE Reject(<<"bytes written", e.in[3]>>)
                         /\ Upd(e.x, e.in) /\ Keep
    [] e.op = "ln"    -> NoPanic /\ SetLast(e.x, e.b) /\ Keep
    [] e.op = "cnt"   -> /\ IsHasher(e.x)
                         /\ LET z == TLCEval(CCount(cache, obj[e.x], IF Returned THEN e.c ELSE <<>>)) IN
                            IF Returned /\ e.c = z.d THEN cache' = z.c ELSE Reject(z.d)
                         /\ Observe
    [] e.op = "fin"   -> IsHasher(e.x) /\ Digests(CFin(cache, obj[e.x], e.d)) /\ Observe
    [] e.op = "hash"  -> IsHasher(e.x) /\ Digests(CFin(cache, obj[e.x], e.d)) /\ KeepHash(e.r, e.d)
    [] e.op = "one"   -> Digests(CDigest(cache, DefaultParams, <<e.in>>, FALSE, e.d)) /\ Observe
    [] e.op = "sone"  -> Digests(CSpDigest(cache, DefaultSpParams, <<e.in>>, e.d)) /\ Observe
    [] e.op = "u8"    -> NoPanic /\ Upd8(e.xs, e.ins) /\ Keep
    [] e.op = "f8"    -> /\ \A i \in 1..8 : Live(e.xs[i], "S")
                         /\ Digests(CMany(cache, 8, LAMBDA c, i : CFin(c, obj[e.xs[i]], e.d[i]))) /\ Observe
    [] e.op = "h8"    -> /\ \A i \in 1..8 : Live(e.ps[i], "P")
                         /\ IF Hash8Accepts(e.ps)
                            THEN Digests(CMany(cache, 8,
                                   LAMBDA c, i : CDigest(c, obj[e.ps[i]].v, <<e.ins[i]>>, obj[e.ps[i]].v.ln, e.d[i])))
                            ELSE (IF Returned THEN Reject("must panic: keyed parameters") ELSE Keep)
                         /\ Observe
    [] e.op = "exact" -> /\ Live(e.x, "P")
                         /\ IF ExactAccepts(e.ins)
                            THEN Digests(CMany(cache, Len(e.ins),
                                   LAMBDA c, i : CDigest(c, obj[e.x].v, <<e.ins[i]>>, obj[e.x].v.ln, e.d[i])))
                            ELSE (IF Returned THEN Reject("must panic: invalid input shape") ELSE Keep)
                         /\ Observe
    [] e.op = "exactl" -> /\ Live(e.x, "P") /\ ~ExactLAccepts(e.lins)      \* only refusals are replayed at this size
                         /\ IF Returned THEN Reject("must panic: invalid input shape") ELSE Keep
                         /\ Observe
    [] e.op = "psetl" -> /\ (Live(e.x, "P") \/ (Live(e.x, "Q") /\ e.f = "key")) /\ ~SetterLAccepts(e.f, e.lin)
                         /\ IF Returned THEN Reject("must panic: too long") ELSE Keep
                         /\ Observe
    [] e.op = "par"   -> Par(e.jobs) /\ Digests(CMany(cache, Len(e.jobs), LAMBDA c, i : CFin(c, obj'[e.jobs[i].s], e.d[i])))
    [] e.op = "dbg"   -> /\ Shape(obj[e.x]) = Shape(obj[e.y])
                         /\ IF Returned /\ e.dx = e.dy /\ e.px = e.py
                            THEN TRUE ELSE Reject("equal Debug output")
                         /\ Observe /\ Keep
    [] e.op = "cmp"   -> /\ IF ~Returned THEN Reject("must not panic")
                            ELSE IF e.skip \/ ~CheckDigests THEN Keep
                            ELSE LET z == CMany(cache, Len(e.lanes), LAMBDA c, i : CLane(c, e.lanes[i]))
                                 IN  IF e.out = z.d THEN cache' = z.c ELSE Reject(z.d)
                         /\ Observe
    [] e.op = "hget"  -> /\ Live(e.x, "H")
                         /\ LET b == obj[e.x].b IN
                            IF Returned /\ e.bytes = b /\ e.asref = b /\ e.hex = Hex(b) /\ e.dbg = "Hash(0x" \o Hex(b) \o ")"
                            THEN TRUE ELSE Reject(<<b, Hex(b)>>)
                         /\ Observe /\ Keep
    [] e.op = "heq"   -> /\ Live(e.x, "H") /\ Live(e.y, "H")
                         /\ IF Returned /\ e.eq = (obj[e.x].b = obj[e.y].b) /\ e.ne = (obj[e.x].b # obj[e.y].b)
                            THEN TRUE ELSE Reject(obj[e.x].b = obj[e.y].b)
                         /\ Observe /\ Keep
    [] e.op = "heqs"  -> /\ Live(e.x, "H")
                         /\ IF Returned /\ e.eq = (obj[e.x].b = e.v) /\ e.ne = (obj[e.x].b # e.v)
                            THEN TRUE ELSE Reject(obj[e.x].b = e.v)
                         /\ Observe /\ Keep
    [] e.op = "heqd"  -> /\ Live(e.x, "H")
                         /\ LET same == e.v = obj[e.x].b IN
                            IF Returned /\ same = HEqExpected(e.kind) /\ e.eq = same /\ e.ne = ~same THEN TRUE ELSE Reject(same)
                         /\ Observe /\ Keep
    [] OTHER -> Reject("no such action") /\ UNCHANGED <<obj, cache>>

Next == l <= Len(Traces[t]) /\ Step /\ l' = l + 1 /\ t' = t

Spec == Init /\ [][Next]_vars

View == <<t, l>>
Accepted == TLCGet("stats").distinct = TotalStates
=============================================================================
