-------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* The blake2s_simd library as a state machine.                            *)
(*                                                                         *)
(* State: the live objects.  obj maps an object id to                      *)
(*   [kind "P"]  a Params builder        v   : parameter record            *)
(*   [kind "Q"]  a blake2sp::Params      v   : [hl, key]                   *)
(*   [kind "S"]  a State (hasher)        p   : parameters at creation      *)
(*                                       msg : the pieces input so far     *)
(*                                       ln  : last-node flag              *)
(*   [kind "T"]  a blake2sp::State       p, msg                            *)
(*   [kind "H"]  a Hash value            b   : digest bytes                *)
(*                                                                         *)
(* One action per public API call.  What a call returns is an operator of  *)
(* the state before the call; the trace specification compares it with     *)
(* what the real call returned, the generators ignore it.                  *)
(*                                                                         *)
(* What is deliberately NOT here: buffers, block counters, lanes, SIMD,    *)
(* compression order.  A hasher is its parameters and its message, and the *)
(* message is the concatenation of the pieces (how it was cut is kept only *)
(* so that properties about cutting can be told from all others).          *)
(***************************************************************************)
EXTENDS Blake2sp, Pattern

VARIABLE obj

NoObjects == [x \in {} |-> x]
Live(x, k) == x \in DOMAIN obj /\ obj[x].kind = k
Put(r, o) == (r :> o) @@ obj

---------------------------------------------------------------------------
(* Setter ranges and effects.  Numeric arguments are U64 4-tuples.         *)
SetterAccepts(f, v) ==
  CASE f = "hash_length" -> U64Small(v) /\ v[4] >= 1 /\ v[4] <= 32
    [] f = "key" -> Len(v) <= 32
    [] f = "salt" -> Len(v) <= 8
    [] f = "personal" -> Len(v) <= 8
    [] f = "fanout" -> TRUE
    [] f = "max_depth" -> v[4] # 0
    [] f = "max_leaf_length" -> TRUE
    [] f = "node_offset" -> v[1] = 0
    [] f = "node_depth" -> TRUE
    [] f = "inner_hash_length" -> U64Small(v) /\ v[4] <= 32
    [] f = "last_node" -> TRUE

Pad8(v) == [i \in 1..8 |-> IF i <= Len(v) THEN v[i] ELSE 0]

SetterApply(p, f, v) ==
  CASE f = "hash_length" -> [p EXCEPT !.hl = v[4]]
    [] f = "key" -> [p EXCEPT !.key = v]
    [] f = "salt" -> [p EXCEPT !.salt = Pad8(v)]
    [] f = "personal" -> [p EXCEPT !.pers = Pad8(v)]
    [] f = "fanout" -> [p EXCEPT !.fan = v[4]]
    [] f = "max_depth" -> [p EXCEPT !.dep = v[4]]
    [] f = "max_leaf_length" -> [p EXCEPT !.leaf = U64Lo(v)]
    [] f = "node_offset" -> [p EXCEPT !.noff = v]
    [] f = "node_depth" -> [p EXCEPT !.nd = v[4]]
    [] f = "inner_hash_length" -> [p EXCEPT !.ihl = v[4]]
    [] f = "last_node" -> [p EXCEPT !.ln = (v[4] = 1)]

(* A rejected setter call panics and changes nothing. *)
SetterResult(p, f, v) == IF SetterAccepts(f, v) THEN SetterApply(p, f, v) ELSE p

---------------------------------------------------------------------------
(* Builders *)
PNew(r)      == obj' = Put(r, [kind |-> "P", v |-> DefaultParams])
QNew(r)      == obj' = Put(r, [kind |-> "Q", v |-> DefaultSpParams])
PSet(x, f, v) == /\ (Live(x, "P") \/ (Live(x, "Q") /\ f \in {"hash_length", "key"}))
                 /\ obj' = [obj EXCEPT ![x].v = SetterResult(@, f, v)]
CloneObj(x, r) == x \in DOMAIN obj /\ obj' = Put(r, obj[x])
Drop(x)      == x \in DOMAIN obj /\ obj' = [y \in (DOMAIN obj) \ {x} |-> obj[y]]

(* Hashers *)
NewHasher(p)   == [kind |-> "S", p |-> p, msg |-> <<>>, ln |-> p.ln]
NewSpHasher(q) == [kind |-> "T", p |-> q, msg |-> <<>>]
SNew(r)      == obj' = Put(r, NewHasher(DefaultParams))
ToState(x, r) == Live(x, "P") /\ obj' = Put(r, NewHasher(obj[x].v))
TNew(r)      == obj' = Put(r, NewSpHasher(DefaultSpParams))
ToSpState(x, r) == Live(x, "Q") /\ obj' = Put(r, NewSpHasher(obj[x].v))

IsHasher(x)  == x \in DOMAIN obj /\ obj[x].kind \in {"S", "T"}
Input(o, g)  == [o EXCEPT !.msg = Append(@, g)]
Upd(x, g)    == IsHasher(x) /\ obj' = [obj EXCEPT ![x] = Input(@, g)]
SetLast(x, b) == Live(x, "S") /\ obj' = [obj EXCEPT ![x].ln = b]
Upd8(xs, gs) == /\ \A i \in 1..8 : Live(xs[i], "S")
                /\ \A i, j \in 1..8 : i # j => xs[i] # xs[j]
                /\ obj' = FoldLeft(LAMBDA o, i : [o EXCEPT ![xs[i]] = Input(@, gs[i])], obj, <<1,2,3,4,5,6,7,8>>)
(* Several threads, each owning one hasher and feeding it its own pieces:  *)
(* whatever the schedule, each hasher gets exactly its own pieces.         *)
Par(jobs)    == /\ \A i \in DOMAIN jobs : IsHasher(jobs[i].s)
                /\ \A i, j \in DOMAIN jobs : i # j => jobs[i].s # jobs[j].s
                /\ obj' = FoldLeft(LAMBDA o, jb : [o EXCEPT ![jb.s] = FoldLeft(LAMBDA h, g : Input(h, g), @, jb.in)],
                                   obj, jobs)

(* Calls that only look: they change nothing. *)
Observe == UNCHANGED obj
(* A hash returned by finalize, kept as an object. *)
KeepHash(r, b) == obj' = Put(r, [kind |-> "H", b |-> b])

---------------------------------------------------------------------------
(* Returned values, as mathematics over the abstract state (no caching).   *)
MsgDigest(p, msg, ln) ==
  LET b == MsgBytes(msg) IN Digest(p, Len(b), LAMBDA x : b[x + 1], ln)
MsgSpDigest(q, msg) ==
  LET b == MsgBytes(msg) IN SpDigest(q, Len(b), LAMBDA x : b[x + 1])

(* The message as such: pieces that continue each other are merged.        *)
Whole(msg) == FoldLeft(LAMBDA a, g : AddSeg(a, g), <<>>, msg)

RetFin(o) == IF o.kind = "S" THEN MsgDigest(o.p, o.msg, o.ln) ELSE MsgSpDigest(o.p, o.msg)
RetCount(o) == MsgLen(o.msg)

(* What Debug output of an object may depend on: everything except the    *)
(* bytes of the key and of the message.                                    *)
Shape(o) ==
  CASE o.kind = "S" -> <<"S", [o.p EXCEPT !.key = Len(@)], MsgLen(o.msg), o.ln>>
    [] o.kind = "T" -> <<"T", [o.p EXCEPT !.key = Len(@)], MsgLen(o.msg)>>
    [] o.kind = "Q" -> <<"Q", [o.v EXCEPT !.key = Len(@)]>>

(* One call of a compression implementation: lanes are [h, m, t, f0, f1],  *)
(* h and m content <<stream, offset>> of 32 and 64 bytes.                  *)
LaneCompress(a) ==
  LET hb == [i \in 1..32 |-> Pat(a.h[1], a.h[2] + i - 1)]
      mb == TLCEval([i \in 1..64 |-> Pat(a.m[1], a.m[2] + i - 1)])
      F(b) == IF b THEN OnesW ELSE ZeroW
  IN  Compress(TLCEval([i \in 1..8 |-> MsgWord(hb, i - 1)]), mb, a.t, F(a.f0), F(a.f1))

(* hash8 takes eight keyless parameter sets. *)
Hash8Accepts(ps) == \A i \in 1..8 : obj[ps[i]].v.key = <<>>
(* hashN_exact takes equally long, non-empty multiples of the block size.  *)
ExactAccepts(gs) ==
  /\ \A i \in DOMAIN gs : gs[i][3] = gs[1][3]
  /\ gs[1][3] > 0
  /\ gs[1][3] % BLOCK = 0

(* The same for slices beyond TLC's numbers: lengths are <<blocks, rest>>. *)
ExactLAccepts(gs) ==
  /\ \A i \in DOMAIN gs : gs[i][4] = gs[1][4] /\ gs[i][5] = gs[1][5]
  /\ gs[1][4] > 0
  /\ gs[1][5] = 0
SetterLAccepts(f, g) == g[4] = 0 /\ SetterAccepts(f, [i \in 1..g[5] |-> 0])

(* Hash values *)
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Hex(b) == FoldLeft(LAMBDA s, x : s \o HexDigit[(x \div 16) + 1] \o HexDigit[(x % 16) + 1], "", b)
=============================================================================
