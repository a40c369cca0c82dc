------------------------------- MODULE GenLib --------------------------------
(***************************************************************************)
(* Vocabulary of the script generators: the calls, as records the harness  *)
(* executes and the trace specification reads back.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Thorough == IOEnv.VERIF_TIER = "thorough"
Seed == atoi(IOEnv.VERIF_SEED)
T(q, th) == IF Thorough THEN th ELSE q

Emit(s) == PrintT("SCRIPT " \o ToJson(s))
(* A script every trace starts with. *)
Ref(s) == PrintT("REF " \o ToJson(s))

N64(n) == <<0, 0, n \div 65536, n % 65536>>
W64(a, b, c, d) == <<a, b, c, d>>
Bytes(k, n) == [i \in 1..n |-> (k * 37 + (i % 256) * 11 + (i % 256) * (i % 256) * 3) % 256]

oSNew(r) == [op |-> "snew", r |-> r]
oTNew(r) == [op |-> "tnew", r |-> r]
oPNew(r) == [op |-> "pnew", r |-> r]
oQNew(r) == [op |-> "qnew", r |-> r]
oSet(x, f, v) == [op |-> "pset", x |-> x, f |-> f, v |-> v]
oSt(x, r) == [op |-> "st", x |-> x, r |-> r]
oTSt(x, r) == [op |-> "tst", x |-> x, r |-> r]
oUpd(x, k, o, n, via) == [op |-> "upd", x |-> x, in |-> <<k, o, n>>, via |-> via]
oFin(x) == [op |-> "fin", x |-> x]
oHash(x, r) == [op |-> "hash", x |-> x, r |-> r]
oCnt(x) == [op |-> "cnt", x |-> x]
oLn(x, b) == [op |-> "ln", x |-> x, b |-> b]
oClone(x, r) == [op |-> "clone", x |-> x, r |-> r]
oCloneTo(x, r, via) == [op |-> "clone", x |-> x, r |-> r, via |-> via]    \* via 1: clone_from
oDrop(x) == [op |-> "drop", x |-> x]
oForce(x) == [op |-> "forcep", x |-> x]
oOne(k, o, n) == [op |-> "one", in |-> <<k, o, n>>]
oSOne(k, o, n) == [op |-> "sone", in |-> <<k, o, n>>]
oU8(xs, ins) == [op |-> "u8", xs |-> xs, ins |-> ins]
oF8(xs) == [op |-> "f8", xs |-> xs]
oH8(ps, ins) == [op |-> "h8", ps |-> ps, ins |-> ins]
oExact(x, ins) == [op |-> "exact", x |-> x, ins |-> ins]
(* Slices of 2^32 bytes and more: <<stream, offset blocks, offset rest, length blocks, length rest>> *)
oSetL(x, f, g) == [op |-> "psetl", x |-> x, f |-> f, lin |-> g]
oExactL(x, gs) == [op |-> "exactl", x |-> x, lins |-> gs]
(* Threads, each a sequence of calls on objects of its own, at once.       *)
oThreads(ts) == << [op |-> "fork"] >> \o FlattenSeq([k \in DOMAIN ts |-> [i \in DOMAIN ts[k] |-> ts[k][i] @@ [th |-> k]]]) \o << [op |-> "join"] >>
oPar(jobs) == [op |-> "par", jobs |-> jobs]
oHGet(x) == [op |-> "hget", x |-> x]
oHEq(x, y) == [op |-> "heq", x |-> x, y |-> y]
oHEqS(x, v) == [op |-> "heqs", x |-> x, v |-> v]
oDbg(x, y) == [op |-> "dbg", x |-> x, y |-> y]
oCmp(im, lanes) == [op |-> "cmp", impl |-> im, lanes |-> lanes]

oHEqD(x, kind, i) == [op |-> "heqd", x |-> x, kind |-> kind, i |-> i]

(* Pseudo-random choices, a function of VERIF_SEED and an index.           *)
Mix(x) == LET a == (x * 25173 + 13849) % 65521
              b == ((a % 256) * 251 + (a \div 256) * 7919 + 12345) % 65521
          IN  (b * 31821 + 13849) % 65521
Rnd(i, m) == Mix(Mix((i % 65521) + 17 * (Seed % 3000)) + (i \div 65521) + (Seed % 977)) % m

(* Random parameters: setter calls for builder x, a function of index i.   *)
RndWords(i, top) == << IF top THEN 0 ELSE Rnd(i, 65536), Rnd(i + 1, 65536), Rnd(i + 2, 65536), Rnd(i + 3, 65536) >>
RndBytes(i, n) == [j \in 1..n |-> Rnd(i * 3 + j, 256)]
RndKey(x, i) == << oSet(x, "key", RndBytes(7 * i + 1, 1 + Rnd(i + 31, 32))) >>
RndPlain(x, i) ==
  << oSet(x, "hash_length", N64(1 + Rnd(11 * i, 32))),
     oSet(x, "salt", RndBytes(11 * i + 1, Rnd(i + 53, 9))),
     oSet(x, "personal", RndBytes(11 * i + 2, Rnd(i + 59, 9))),
     oSet(x, "fanout", N64(Rnd(11 * i + 3, 256))),
     oSet(x, "max_depth", N64(1 + Rnd(11 * i + 4, 255))),
     oSet(x, "max_leaf_length", <<0, 0, Rnd(11 * i + 5, 65536), Rnd(11 * i + 6, 65536)>>),
     oSet(x, "node_offset", RndWords(11 * i + 7, TRUE)),
     oSet(x, "node_depth", N64(Rnd(11 * i + 8, 256))),
     oSet(x, "inner_hash_length", N64(Rnd(11 * i + 9, 33))),
     oSet(x, "last_node", N64(Rnd(11 * i + 10, 2))) >>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================
