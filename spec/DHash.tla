-------------------------------- MODULE DHash ---------------------------------
(***************************************************************************)
(* Design model: hash values (C19).  OUT bytes of which len are visible;   *)
(* bytes are written as two digits, high first, in base BASE.  Comparison  *)
(* looks at all visible bytes and gathers their differences.               *)
(*   Right : == holds exactly of equal visible bytes of equal length, with *)
(*           a hash or with a slice, whatever is behind the visible part.  *)
(*   Text  : the text is two digits for each visible byte, and equal       *)
(*           exactly if the visible bytes are.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS OUT, BASE, Bug

Byte == 0..(BASE * BASE - 1)
VARIABLES a, b,       \* [len, bytes]; b is a slice, if its bytes are all visible
          at, i, acc, \* the comparison
          ret
vars == <<a, b, at, i, acc, ret>>
Hashes == [len : 1..OUT, bytes : [1..OUT -> Byte]]
Slices == UNION { { [len |-> n, bytes |-> s] : s \in [1..n -> Byte] } : n \in 0..OUT }
Visible(x) == IF Bug = "all" THEN x.bytes ELSE SubSeq(x.bytes, 1, x.len)

Init == a \in Hashes /\ b \in (Hashes \cup Slices) /\ at = "start" /\ i = 1 /\ acc = FALSE /\ ret = "none"
(* the lengths first; then every byte *)
Shorter(x, y) == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
Start == at = "start" /\ at' = (IF Len(Visible(a)) # Len(Visible(b)) /\ Bug # "prefix" THEN "unequal" ELSE "bytes") /\ UNCHANGED <<a, b, i, acc, ret>>
Bytes == /\ at = "bytes" /\ i <= Shorter(Visible(a), Visible(b))
         /\ acc' = (IF Bug = "last" THEN Visible(a)[i] # Visible(b)[i] ELSE acc \/ Visible(a)[i] # Visible(b)[i])
         /\ i' = i + 1 /\ UNCHANGED <<a, b, at, ret>>
End == /\ (at = "unequal" \/ (at = "bytes" /\ i > Shorter(Visible(a), Visible(b))))
       /\ ret' = (IF at = "unequal" \/ acc THEN "differ" ELSE "equal") /\ at' = "done" /\ UNCHANGED <<a, b, i, acc>>
Next == Start \/ Bytes \/ End
Spec == Init /\ [][Next]_vars

Same(x, y) == x.len = y.len /\ \A j \in 1..x.len : x.bytes[j] = y.bytes[j]
Right == ret # "none" => (ret = "equal") = Same(a, b)
Digits(v) == IF Bug = "nozero" /\ v < BASE THEN <<v>> ELSE IF Bug = "swapped" THEN <<v % BASE, v \div BASE>> ELSE <<v \div BASE, v % BASE>>
Hex(x) == FlattenSeq([j \in 1..Len(Visible(x)) |-> Digits(Visible(x)[j])])
Value(s) == [j \in 1..(Len(s) \div 2) |-> BASE * s[2 * j - 1] + s[2 * j]]
Text == at = "start" => /\ Len(Hex(a)) = 2 * a.len
                        /\ Value(Hex(a)) = SubSeq(a.bytes, 1, a.len)
                        /\ (Hex(a) = Hex(b)) = Same(a, b)
=============================================================================
