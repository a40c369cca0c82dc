------------------------------ MODULE GenParams ------------------------------
(***************************************************************************)
(* Parameter sets: every bit of every field alone, every value of the      *)
(* small fields, every key length, and random combinations of all fields.  *)
(* The messages include the keyed empty message and block boundaries.      *)
(* FOCUS: s (BLAKE2s parameters), sp (BLAKE2sp key and hash length).       *)
(***************************************************************************)
EXTENDS GenLib

Focus == IOEnv.FOCUS

DigestOf(m) == << oSt("p", "s"), oUpd("s", 3, 0, m, 0), oFin("s"), oDrop("s") >>
With(sets, ms) == Emit(<< oPNew("p") >> \o sets \o FlattenSeq([j \in 1..Len(ms) |-> DigestOf(ms[j])]))

Bit48(b) == IF b < 16 THEN <<0, 0, 0, 2^b>> ELSE IF b < 32 THEN <<0, 0, 2^(b-16), 0>> ELSE <<0, 2^(b-32), 0, 0>>
Bit32(b) == Bit48(b)
OneBit(n, j, v) == [i \in 1..n |-> IF i = j THEN v ELSE 0]

Some == <<0, 65>>
Fields(go) ==
  /\ \A b \in 0..47 : With(<< oSet("p", "node_offset", Bit48(b)) >>, Some)
  /\ \A b \in 0..31 : With(<< oSet("p", "max_leaf_length", Bit32(b)) >>, Some)
  /\ With(<< oSet("p", "node_offset", <<0, 65535, 65535, 65535>>) >>, Some)
  /\ With(<< oSet("p", "max_leaf_length", <<0, 0, 65535, 65535>>) >>, Some)
  /\ \A v \in 0..255 : With(<< oSet("p", "fanout", N64(v)) >>, <<1>>)
  /\ \A v \in 1..255 : With(<< oSet("p", "max_depth", N64(v)) >>, <<1>>)
  /\ \A v \in 0..255 : With(<< oSet("p", "node_depth", N64(v)) >>, <<1>>)
  /\ \A v \in 0..32 : With(<< oSet("p", "inner_hash_length", N64(v)) >>, Some)
  /\ \A v \in 1..32 : With(<< oSet("p", "hash_length", N64(v)) >>, <<0, 1, 64, 65, 130>>)
  /\ \A f \in {"salt", "personal"} :
       /\ \A j \in 1..8 : \A v \in {1, 128} : With(<< oSet("p", f, OneBit(8, j, v)) >>, Some)
       /\ \A n \in 0..8 : With(<< oSet("p", f, Bytes(n + 40, n)) >>, Some)
  /\ With(<< oSet("p", "last_node", N64(1)) >>, <<0, 1, 64, 65, 128>>)

(* Keys: every length with every kind of message end; every byte position. *)
Keys(go) ==
  /\ \A n \in 0..32 : With(<< oSet("p", "key", Bytes(n, n)) >>, <<0, 1, 63, 64, 65, 128, 129>>)
  /\ \A n \in 1..32 : With(<< oSet("p", "key", OneBit(n, 1 + ((n * 7) % n), 0)), oSet("p", "hash_length", N64(n)) >>, <<0, 64>>)
  /\ \A j \in 1..32 : With(<< oSet("p", "key", OneBit(32, j, 1 + ((j * 31) % 255))) >>, Some)

Lens == <<0, 1, 31, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256, 257, 320>>
Combos(go) == \A i \in 1..T(500, 6000) :
  With(RndPlain("p", i) \o (IF Rnd(i + 7, 3) = 0 THEN <<>> ELSE RndKey("p", i)),
       << Lens[1 + Rnd(3 * i, 15)], Rnd(5 * i, 400), Lens[1 + Rnd(9 * i + 1, 15)] >>)

(* BLAKE2sp *)
SpDigestOf(k, m) == << oTSt("q", "t"), oUpd("t", k, 0, m, 0), oFin("t"), oCnt("t"), oDrop("t") >>
SpWith(sets, k, ms) == Emit(<< oQNew("q") >> \o sets \o FlattenSeq([j \in 1..Len(ms) |-> SpDigestOf(k, ms[j])]))
SpLens == <<0, 1, 64, 65, 511, 512, 513, 960, 961, 1024, 1025, 1600, 2000>>
SpKeys(go) ==
  /\ \A n \in 0..32 : SpWith(<< oSet("q", "key", Bytes(n, n)) >>, 3, IF n \in {0, 1, 31, 32} \/ Thorough THEN SpLens ELSE <<0, 65, SpLens[1 + (n % 13)]>>)
  /\ \A n \in 1..32 : SpWith(<< oSet("q", "hash_length", N64(n)) >>, 4, IF n \in {1, 32} \/ Thorough THEN SpLens ELSE <<0, SpLens[1 + (n % 13)]>>)
  /\ \A j \in 1..32 : SpWith(<< oSet("q", "key", OneBit(32, j, 1 + ((j * 31) % 255))) >>, 5, <<SpLens[1 + (j % 13)]>>)
SpCombos(go) == \A i \in 1..T(120, 3000) :
  SpWith(<< oSet("q", "hash_length", N64(1 + Rnd(11 * i, 32))) >> \o (IF Rnd(i + 7, 3) = 0 THEN <<>> ELSE RndKey("q", i)),
         3 + Rnd(i, 900), << SpLens[1 + Rnd(3 * i, 13)], Rnd(5 * i, 2300) >>)

ASSUME IF Focus = "sp" THEN SpKeys(0) /\ SpCombos(0) ELSE Fields(0) /\ Keys(0) /\ Combos(0)
=============================================================================
