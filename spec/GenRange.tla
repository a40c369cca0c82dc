------------------------------- MODULE GenRange ------------------------------
(***************************************************************************)
(* Setter arguments: all values near the limits, values that fit only      *)
(* after truncation to 8, 16 or 32 bits, and the extremes of the argument  *)
(* type; in builders of different prior content.  After every call the     *)
(* builder is observed through the digest it leads to.                     *)
(***************************************************************************)
EXTENDS GenLib

Top(v) == << <<0, 0, 0, v>>, <<0, 0, 1, v>>, <<0, 0, 256, v>>, <<0, 1, 0, v>>, <<1, 0, 0, v>>, <<32768, 0, 0, v>>, <<65535, 65535, 65535, v>>,
             <<0, 0, 0, 256 + v>>, <<0, 0, 0, 512 + v>>, <<0, 0, 0, 32768 + v>> >>
Flat(ss) == FlattenSeq(ss)
Upto(a, b) == [i \in 1..(b - a + 1) |-> N64(a + i - 1)]

Lens == [i \in 1..(T(70, 600)) |-> i - 1] \o <<127, 128, 129, 255, 256, 257, 260, 264, 271, 272, 287, 288, 289, 511, 512, 513, 520, 540, 544, 1024, 65535, 65536, 65537, 65540, 65544, 65568>>
ByteStrings == [i \in DOMAIN Lens |-> Bytes(11, Lens[i])]

Args(f) ==
  CASE f \in {"hash_length", "inner_hash_length"} ->
         Upto(0, 300) \o Flat([v \in 1..8 |-> Top(<<0, 1, 2, 16, 31, 32, 33, 255>>[v])])
    [] f = "node_offset" ->
         Upto(0, 3) \o Flat([v \in 1..4 |-> Top(<<0, 1, 255, 65535 - 32768>>[v])])
         \o << <<0, 65535, 65535, 65535>>, <<0, 65535, 65535, 65534>>, <<0, 65535, 0, 0>>, <<0, 32768, 0, 0>>, <<1, 0, 0, 0>>, <<1, 0, 0, 1>>, <<2, 0, 0, 0>>,
               <<0, 1, 0, 0>>, <<0, 0, 65535, 65535>>, <<1, 65535, 65535, 65535>>, <<128, 0, 0, 0>>, <<256, 0, 0, 0>>, <<32768, 0, 0, 0>>,
               <<65535, 65535, 65535, 65535>>, <<65535, 0, 0, 0>> >>
    [] f = "max_leaf_length" -> Upto(0, 3) \o << <<0, 0, 65535, 65535>>, <<0, 0, 32768, 0>>, <<0, 0, 32767, 65535>>, <<0, 0, 1, 0>>, <<0, 0, 0, 65535>>, <<0, 0, 65535, 65534>> >>
    [] f \in {"fanout", "max_depth", "node_depth"} -> Upto(0, 255)
    [] f = "last_node" -> Upto(0, 1)
    [] f \in {"key", "salt", "personal"} -> ByteStrings

Fs == {"hash_length", "key", "salt", "personal", "fanout", "max_depth", "max_leaf_length", "node_offset", "node_depth", "inner_hash_length", "last_node"}

(* prior contents of the builder: default, or every field already set      *)
Prior(x, k) == IF k = 0 THEN <<>> ELSE RndPlain(x, k) \o RndKey(x, k)
PriorQ(x, k) == IF k = 0 THEN <<>> ELSE << oSet(x, "hash_length", N64(17)) >> \o RndKey(x, k)
See(x, s) == << oSt(x, s), oUpd(s, 2, 0, 3, 0), oFin(s), oDrop(s) >>
SeeQ(x, s) == << oTSt(x, s), oUpd(s, 2, 0, 3, 0), oFin(s), oDrop(s) >>

(* what the prior builders lead to, established by untouched builders      *)
Refs == \A k \in {0, 1} : /\ Ref(<< oPNew("r") >> \o Prior("r", k) \o See("r", "s") \o << oDrop("r") >>)
                          /\ Ref(<< oQNew("r") >> \o PriorQ("r", k) \o SeeQ("r", "s") \o << oDrop("r") >>)

Step == 12
Chunk(s, i) == SubSeq(s, (i - 1) * Step + 1, Min2(i * Step, Len(s)))
Each == IOEnv.FOCUS # "giant" => \A k \in {0, 1} : \A f \in Fs :
  LET as == Args(f) IN \A i \in 1..((Len(as) + Step - 1) \div Step) :
    LET c == Chunk(as, i) IN
    (* one builder per argument: call, then look *)
    /\ Emit(FlattenSeq([j \in DOMAIN c |-> << oPNew("p") >> \o Prior("p", k) \o << oSet("p", f, c[j]) >> \o See("p", "s")]))
    (* all on one builder: later calls must not see earlier ones *)
    /\ Emit(<< oPNew("p") >> \o Prior("p", k) \o FlattenSeq([j \in DOMAIN c |-> << oSet("p", f, c[j]) >> \o See("p", "s")]))
    /\ IF f \notin {"hash_length", "key"} THEN TRUE
       ELSE Emit(FlattenSeq([j \in DOMAIN c |-> << oQNew("p") >> \o PriorQ("p", k) \o << oSet("p", f, c[j]) >> \o SeeQ("p", "s")]))

(* Byte strings whose length only fits after truncation to 32 bits.       *)
G32 == 67108864        \* 2^32 bytes, in blocks
Giant(go) == \A k \in {0, 1} : \A n \in {0, 1, 4, 7, 8, 9, 16, 31, 32, 33, 63} : \A b \in {G32, G32 \div 2, 1024, 1048576} :
  /\ \A f \in {"key", "salt", "personal"} :
       Emit(<< oPNew("p") >> \o Prior("p", k) \o << oSetL("p", f, <<1, 0, n, b, n>>) >> \o See("p", "s"))
  /\ Emit(<< oQNew("p") >> \o PriorQ("p", k) \o << oSetL("p", "key", <<1, 0, n, b, n>>) >> \o SeeQ("p", "s"))

ASSUME Refs /\ (IF IOEnv.FOCUS = "giant" THEN Giant(0) ELSE Each)
=============================================================================
