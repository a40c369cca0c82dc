------------------------------ MODULE GenSweep -------------------------------
(***************************************************************************)
(* Messages of every length in a range and of varied content, for the      *)
(* default BLAKE2s (FOCUS = s) and for BLAKE2sp (FOCUS = sp).              *)
(***************************************************************************)
EXTENDS GenLib

Sp == IOEnv.FOCUS = "sp"

One(k, m) == IF Sp
  THEN << oSOne(k, 0, m), oTNew("s"), oUpd("s", k, 0, m, 0), oFin("s"), oDrop("s") >>
  ELSE << oOne(k, 0, m), oSNew("s"), oUpd("s", k, 0, m, 0), oFin("s"), oDrop("s") >>

Chunks(f(_), lo, hi, step) ==    \* scripts of `step` consecutive items
  \A i \in 0..((hi - lo) \div step) :
    Emit(FlattenSeq([j \in 1..Min2(step, hi - lo - i * step + 1) |-> f(lo + i * step + j - 1)]))

(* 1. every length *)
MaxLen == IF Sp THEN T(2300, 9000) ELSE T(1300, 9000)
Lengths == Chunks(LAMBDA m : One(2, m), 0, MaxLen, 25)

(* 2. varied content at boundary lengths *)
Edge == IF Sp THEN <<0, 1, 63, 64, 65, 448, 511, 512, 513, 960, 961, 1023, 1024, 1025, 1536, 2049>>
        ELSE <<0, 1, 55, 63, 64, 65, 119, 127, 128, 129, 192, 255, 256, 257, 1024>>
Streams == <<0, 1>> \o [i \in 1..T(IF Sp THEN 5 ELSE 40, IF Sp THEN 60 ELSE 500) |-> 3 + (Rnd(i, 900))]
Contents == \A i \in 1..Len(Streams) :
  Emit(FlattenSeq([j \in 1..Len(Edge) |-> One(Streams[i], Edge[j])]
                  \o << One(Streams[i], Rnd(1000 + i, 700)), One(Streams[i], Rnd(2000 + i, 1400)) >>))

(* 3. every byte value, and a single bit in every byte position *)
ByteValues == IF Sp THEN TRUE ELSE Chunks(LAMBDA v : One(1000 + v, 64 - (v % 3)), 0, 255, 32)
Positions == IF Sp THEN Chunks(LAMBDA j : One(2000 + 64 * j + ((j * 29) % 64), 1100), 0, 16, 2)
             ELSE Chunks(LAMBDA j : One(2000 + j, 130), 0, 129, 26)

(* 4. blocks and words of special contents *)
Shapes == IF Sp
  THEN /\ \A j \in 1..T(60, 624) : Emit(One(10000 + ((j * 37) % 625), 900 + Rnd(j, 700)))
       /\ \A j \in 1..T(30, 600) : Emit(One(11002 + j, Rnd(j, 1500)))
  ELSE /\ Chunks(LAMBDA j : One(10000 + j, 193 + Rnd(j, 193)), 0, 624, 25)
       /\ Chunks(LAMBDA j : One(11000 + j, 1 + Rnd(j, 400)), 3, T(250, 900), 25)

(* 5. long messages *)
Long == \A m \in (IF Thorough THEN {65535, 65536, 65537, 131071, 200001, 1048576 + 3} ELSE {16383, 16385, 65535, 65536, 65537}) :
  Emit(One(7, m))

ASSUME Long /\ Shapes /\ Lengths /\ Contents /\ ByteValues /\ Positions
=============================================================================
