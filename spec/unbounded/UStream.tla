------------------------------- MODULE UStream --------------------------------
(***************************************************************************)
(* The lengths of a hasher's buffering, with the real block size, for      *)
(* pieces of any length and any number of them (Apalache: Inv is           *)
(* inductive).  DStream connects lengths with contents, for small sizes.   *)
(***************************************************************************)
EXTENDS Integers
BLOCK == 64
VARIABLES
  \* @type: Int;
  n,       \* bytes taken in
  \* @type: Int;
  len,     \* of them in the buffer
  \* @type: Int;
  done,    \* blocks compressed
  \* @type: Int;
  rem,     \* input still to take
  \* @type: Str;
  pc

Lower(a, b) == IF a < b THEN a ELSE b

Init == n = 0 /\ len = 0 /\ done = 0 /\ rem = 0 /\ pc = "idle"
Call == pc = "idle" /\ rem' \in Nat /\ pc' = "buffer" /\ UNCHANGED <<n, len, done>>
Fill == LET take == Lower(BLOCK - len, rem) IN len' = len + take /\ n' = n + take /\ rem' = rem - take
Buffer == pc = "buffer" /\ UNCHANGED done
          /\ IF len = 0 THEN pc' = "direct" /\ UNCHANGED <<n, len, rem>>
             ELSE Fill /\ pc' = (IF rem' > 0 THEN "compress" ELSE "direct")
Compress == pc = "compress" /\ done' = done + 1 /\ len' = 0 /\ pc' = "direct" /\ UNCHANGED <<n, rem>>
Direct == pc = "direct"
          /\ IF rem > BLOCK THEN n' = n + BLOCK /\ done' = done + 1 /\ rem' = rem - BLOCK /\ UNCHANGED <<len, pc>>
             ELSE pc' = "rest" /\ UNCHANGED <<n, len, done, rem>>
Rest == pc = "rest" /\ Fill /\ pc' = "idle" /\ UNCHANGED done
Next == Call \/ Buffer \/ Compress \/ Direct \/ Rest

Types == n \in Int /\ len \in Int /\ done \in Int /\ rem \in Int /\ pc \in {"idle", "buffer", "compress", "direct", "rest"}
Inv ==
  /\ Types
  /\ n >= 0 /\ done >= 0 /\ rem >= 0
  /\ len >= 0 /\ len <= BLOCK                       \* the buffer is never overrun
  /\ (pc = "direct" /\ rem > BLOCK => len = 0)      \* nothing buffered is overtaken
  /\ n = BLOCK * done + len                         \* no byte lost, none twice
  /\ (done > 0 => len + rem > 0)                    \* no compressed block was the last
  /\ (pc = "idle" => rem = 0)                       \* an update takes all its input
  /\ (pc = "compress" => len = BLOCK /\ rem > 0)    \* whole blocks only
  /\ (pc \in {"direct", "rest"} => len = 0 \/ rem = 0)
  /\ (pc = "rest" => rem <= BLOCK)
(* With pc = "idle": len = Control!Held(n, BLOCK), done = Control!Done(n, BLOCK). *)
Goal == pc = "idle" => len = (IF n = 0 THEN 0 ELSE ((n - 1) % BLOCK) + 1) /\ done = (IF n = 0 THEN 0 ELSE (n - 1) \div BLOCK)
=============================================================================
