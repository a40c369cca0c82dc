------------------------------- MODULE GenCmp --------------------------------
(***************************************************************************)
(* Calls of every compression implementation, one lane set at a time.      *)
(***************************************************************************)
EXTENDS GenLib

Impls == << <<"compress_portable", 1>>, <<"compress_sse41", 1>>, <<"compress4_sse41", 4>>, <<"compress8_portable", 8>>, <<"compress8_avx2", 8>>,
            <<"compress8_transposed_avx2", 8>>, <<"compress8_vectorized_avx2", 8>> >>

Lane(h, m, t, f0, f1) == [h |-> h, m |-> m, t |-> t, f0 |-> f0, f1 |-> f1]

(* eight lanes through every implementation *)
All(ls) == Emit(FlattenSeq([i \in DOMAIN Impls |->
     LET n == Impls[i][2] IN
     IF n = 1 THEN << oCmp(Impls[i][1], ls) >> ELSE
     [g \in 1..(8 \div n) |-> oCmp(Impls[i][1], SubSeq(ls, (g - 1) * n + 1, g * n))]]))

Edge == << <<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,64>>, <<0,0,0,65535>>, <<0,0,1,0>>, <<0,0,32767,65535>>, <<0,0,32768,0>>, <<0,0,65535,65472>>, <<0,0,65535,65535>>,
           <<0,1,0,0>>, <<0,1,0,64>>, <<0,32768,0,0>>, <<0,65535,65535,65535>>, <<1,0,0,0>>, <<32768,0,0,0>>, <<65535,0,0,0>>, <<65535,65535,0,0>>,
           <<65535,65535,65535,65472>>, <<65535,65535,65535,65535>>, <<4660,22136,39612,57072>> >>
RT(i) == IF Rnd(i, 3) = 0 THEN Edge[1 + Rnd(i + 1, Len(Edge))] ELSE <<Rnd(i + 2, 65536), Rnd(i + 3, 65536), Rnd(i + 4, 65536), Rnd(i + 5, 65536)>>
B(i) == Rnd(i, 2) = 0
RH(i) == <<3 + Rnd(i, 900), Rnd(i + 1, 5000)>>
RLane(i) == Lane(RH(7 * i), RH(7 * i + 2), RT(11 * i), B(13 * i), B(17 * i + 1))

Base == Lane(<<3, 0>>, <<4, 0>>, <<0, 0, 0, 64>>, FALSE, FALSE)
Dev(j, l) == [i \in 1..8 |-> IF i = j THEN l ELSE Base]

Counters(d) ==
  /\ \A a \in DOMAIN Edge : \A j \in 1..8 : All(Dev(j, [Base EXCEPT !.t = Edge[a], !.f0 = (a % 2 = 0), !.f1 = (a % 3 = 0)]))
  /\ \A a \in DOMAIN Edge : All([i \in 1..8 |-> [Base EXCEPT !.t = Edge[1 + ((a + i) % Len(Edge))], !.h = <<5, a>>]])
  /\ \A b \in 0..63 : All([i \in 1..8 |-> [Base EXCEPT !.t = [k \in 1..4 |-> IF k = 4 - (((b + i) % 64) \div 16) THEN 2^(((b + i) % 64) % 16) ELSE 0]]])
Flags(d) ==
  /\ \A S \in SUBSET (1..8) : \A w \in {0, 1, 2} :
       All([i \in 1..8 |-> [Base EXCEPT !.f0 = IF w = 1 THEN TRUE ELSE i \in S, !.f1 = IF w = 0 THEN FALSE ELSE IF w = 1 THEN i \in S ELSE i \notin S, !.m = <<6, i>>]])
(* single set bits in every byte of the chaining value and of the block,   *)
(* in every lane; all zeros; all ones                                      *)
Bits(d) ==
  /\ \A j \in 0..31 : All([i \in 1..8 |-> [Base EXCEPT !.h = <<2000 + ((j + 5 * i) % 32), 0>>]])
  /\ \A j \in 0..63 : All([i \in 1..8 |-> [Base EXCEPT !.m = <<2000 + ((j + 9 * i) % 64), 0>>]])
  /\ \A j \in 0..63 : All([i \in 1..8 |-> Lane(<<0, 0>>, <<2000 + ((j + 9 * i) % 64), 0>>, <<0, 0, 0, 0>>, FALSE, FALSE)])
  /\ \A v \in 0..255 : All([i \in 1..8 |-> Lane(<<1000 + ((v + 31 * i) % 256), 0>>, <<1000 + ((v * 3 + i) % 256), 0>>, <<v, v, v, v>>, v % 2 = 0, v % 3 = 0)])
(* lanes never influence each other: one lane differs from seven equal     *)
Deviants(d) == \A j \in 1..8 : \A v \in 1..T(30, 300) : All(Dev(j, RLane(v * 8 + j)))
Shaped(d) == \A v \in 1..T(150, 3000) : All([i \in 1..8 |->
   [RLane(v * 8 + i) EXCEPT !.h = <<11003 + Rnd(v * 8 + i, 900), 32 * (v % 5)>>,
                            !.m = IF v % 2 = 0 THEN <<11003 + Rnd(v * 16 + i, 900), 64 * (v % 7)>> ELSE <<10000 + Rnd(v * 16 + i, 625), 64 * (v % 4)>>]])
Random(d) == \A v \in 1..T(1200, 20000) : All([i \in 1..8 |-> RLane(v * 8 + i)])

(* A sample for slow executions: every kind of counter and flag, in        *)
(* different lanes.                                                        *)
Sample(d) ==
  /\ \A a \in DOMAIN Edge : a % T(3, 1) = 0 => All([i \in 1..8 |-> [Base EXCEPT !.t = Edge[1 + ((a + i) % Len(Edge))], !.f0 = ((a + i) % 2 = 0), !.f1 = ((a + i) % 3 = 0)]])
  /\ \A v \in 1..T(6, 100) : All([i \in 1..8 |-> RLane(v * 8 + i)])

ASSUME IF IOEnv.FOCUS = "small" THEN Sample(0) ELSE Counters(0) /\ Flags(0) /\ Bits(0) /\ Deviants(0) /\ Shaped(0) /\ Random(0)
=============================================================================
