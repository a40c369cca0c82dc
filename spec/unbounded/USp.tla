--------------------------------- MODULE USp ----------------------------------
(***************************************************************************)
(* The lengths of the tree hasher's double buffer, with the real sizes,    *)
(* for pieces of any length (Apalache: Inv is inductive).                  *)
(***************************************************************************)
EXTENDS Integers
BLOCK == 64
STRIPE == 512
VARIABLES
  \* @type: Int;
  n,       \* bytes taken in
  \* @type: Int;
  len,     \* of them in the buffer
  \* @type: Int;
  done,    \* stripes compressed, a block in each leaf
  \* @type: Int;
  rem,     \* input still to take
  \* @type: Str;
  pc
Lower(a, b) == IF a < b THEN a ELSE b

Init == n = 0 /\ len = 0 /\ done = 0 /\ rem = 0 /\ pc = "idle"
Call == pc = "idle" /\ rem' \in Nat /\ pc' = "buffer" /\ UNCHANGED <<n, len, done>>
Fill == LET take == Lower(2 * STRIPE - len, rem) IN len' = len + take /\ n' = n + take /\ rem' = rem - take
Buffer == pc = "buffer" /\ UNCHANGED done
          /\ IF len = 0 THEN pc' = "direct" /\ UNCHANGED <<n, len, rem>>
             ELSE Fill /\ pc' = (IF rem' > 0 THEN "first" ELSE "direct")
First == pc = "first" /\ done' = done + 1 /\ len' = len - STRIPE /\ pc' = "second" /\ UNCHANGED <<n, rem>>
Second == pc = "second" /\ pc' = "direct" /\ UNCHANGED <<n, rem>>
          /\ IF rem > 7 * BLOCK THEN done' = done + 1 /\ len' = 0 ELSE UNCHANGED <<done, len>>
Direct == pc = "direct"
          /\ IF rem > 15 * BLOCK THEN n' = n + STRIPE /\ done' = done + 1 /\ rem' = rem - STRIPE /\ UNCHANGED <<len, pc>>
             ELSE pc' = "rest" /\ UNCHANGED <<n, len, done, rem>>
Rest == pc = "rest" /\ Fill /\ pc' = "idle" /\ UNCHANGED done
Next == Call \/ Buffer \/ First \/ Second \/ Direct \/ Rest

Types == n \in Int /\ len \in Int /\ done \in Int /\ rem \in Int /\ pc \in {"idle", "buffer", "first", "second", "direct", "rest"}
Inv ==
  /\ Types
  /\ n >= 0 /\ done >= 0 /\ rem >= 0
  /\ len >= 0 /\ len <= 2 * STRIPE
  /\ n = STRIPE * done + len
  (* Every leaf has input beyond the blocks it was given: the last leaf's  *)
  (* share of the bytes after `done` stripes is not empty.                 *)
  /\ (done > 0 => len + rem > 7 * BLOCK)
  /\ (pc = "direct" /\ rem > 15 * BLOCK => len = 0)
  /\ (pc = "idle" => rem = 0)
  /\ (pc = "first" => len = 2 * STRIPE /\ rem > 0)
  /\ (pc = "second" => len = STRIPE /\ rem > 0)
  /\ (pc \in {"direct", "rest"} => len = 0 \/ rem = 0 \/ (len = STRIPE /\ rem <= 7 * BLOCK))
  /\ (pc = "rest" => len + rem <= 2 * STRIPE)
Goal == pc = "idle" => n = STRIPE * done + len /\ (done > 0 => len > 7 * BLOCK) /\ len <= 2 * STRIPE
=============================================================================
