------------------------------- MODULE Control --------------------------------
(***************************************************************************)
(* The buffering rules, as functions of lengths alone.  The design models  *)
(* show that the designs follow them (DStream, DSp); the script generators *)
(* use them to enumerate the control states the code has to be driven      *)
(* through.                                                                *)
(***************************************************************************)
EXTENDS Integers

Lower(a, b) == IF a < b THEN a ELSE b
Higher(a, b) == IF a > b THEN a ELSE b

(* A hasher that took in x bytes (key block included) of blocks of size b  *)
(* holds Held bytes back, in its buffer, and compressed Done blocks: a     *)
(* block is only compressed once more input is there.                      *)
Held(x, b) == IF x = 0 THEN 0 ELSE ((x - 1) % b) + 1
Done(x, b) == IF x = 0 THEN 0 ELSE (x - 1) \div b

(* blake2sp: w bytes in a double buffer for l lanes of blocks of size b,   *)
(* then d bytes more: the buffer's new content (how many bytes), how many  *)
(* stripes are compressed, and by which arm of the code.                   *)
SpAfter(w, d, l, b) ==
  LET s == l * b
      take == IF w > 0 THEN Lower(2 * s - w, d) ELSE 0
      w1 == w + take
      r1 == d - take
      one == w > 0 /\ r1 > 0
      two == one /\ r1 > (l - 1) * b
      w2 == IF two THEN 0 ELSE IF one THEN s ELSE w1
      far == (2 * l - 1) * b
      loops == IF w2 > 0 \/ r1 <= far THEN 0 ELSE ((r1 - far - 1) \div s) + 1
      r2 == r1 - s * loops
  IN  [b |-> w2 + r2, g |-> (IF two THEN 2 ELSE IF one THEN 1 ELSE 0) + loops,
       how |-> IF d = 0 THEN "same"
               ELSE IF two THEN (IF loops > 0 THEN "two+loop" ELSE "two") ELSE IF one THEN "shift"
               ELSE IF loops > 0 THEN "loop" ELSE "fill"]
=============================================================================
