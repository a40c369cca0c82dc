-------------------------------- MODULE UOnce ---------------------------------
(***************************************************************************)
(* The index arithmetic of the one-shot calls (hash8's loop over eight     *)
(* inputs of any lengths, hashN_exact's over equal ones), with the real    *)
(* block size (Apalache: Inv is inductive).                                *)
(***************************************************************************)
EXTENDS Integers
BLOCK == 64
VARIABLES
  \* @type: Int -> Int;
  size,     \* the inputs' lengths
  \* @type: Int;
  count,    \* bytes done
  \* @type: Bool;
  exact,    \* hashN_exact, after its guard
  \* @type: Str;
  pc
Lane == 1..8
Equal == \A i \in Lane : size[i] = size[1]
Guard == Equal /\ size[1] % BLOCK = 0 /\ size[1] # 0
Init == /\ size \in [Lane -> Nat] /\ count = 0 /\ exact \in BOOLEAN /\ pc = "loop"
        /\ (exact => Guard)
Left(i) == size[i] - count
UpdateAll == \A i \in Lane : Left(i) > BLOCK
FinalizeAll == \A i \in Lane : Left(i) = BLOCK
Loop == /\ pc = "loop" /\ UNCHANGED <<size, exact>>
        /\ IF exact \/ UpdateAll \/ FinalizeAll      \* read a block of each input
           THEN count' = count + BLOCK /\ pc' = (IF FinalizeAll THEN "done" ELSE "loop")
           ELSE count' = count /\ pc' = "split"       \* the rest of each by itself
Next == Loop
Inv ==
  /\ size \in [Lane -> Int] /\ count \in Int /\ exact \in BOOLEAN /\ pc \in {"loop", "done", "split"}
  /\ count >= 0 /\ count % BLOCK = 0
  /\ \A i \in Lane : size[i] >= 0 /\ count <= size[i]                \* no read outside, no subtraction below zero
  /\ (exact => Guard)
  /\ (exact /\ pc = "loop" => count + BLOCK <= size[1])              \* there is always a last block
  /\ (exact => pc # "split")
  /\ (pc = "done" => \A i \in Lane : count = size[i])                \* all input used
  /\ (pc = "loop" /\ count > 0 => \A i \in Lane : size[i] > count)   \* no compressed block was the last
  /\ (pc = "split" /\ count > 0 => \A i \in Lane : size[i] > count)
Goal == Inv
=============================================================================
