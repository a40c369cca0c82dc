------------------------------ MODULE SameTrace ------------------------------
(***************************************************************************)
(* Configuration independence as a self-composition: each trace file holds *)
(* the same calls executed in several configurations (features, build      *)
(* profile, target), one after the other, each    part headed by a        *)
(* "config" line.  All parts run in step from the first one, the           *)
(* reference: every call must return exactly what it returned there, or    *)
(* panic exactly where it panicked there.  What the values are is not      *)
(* constrained here.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

VARIABLES t, l, base

Files == JsonDeserialize(IOEnv.MANIFEST)
Traces == TLCEval([i \in 1..Len(Files) |-> ndJsonDeserialize(Files[i])])
TotalStates == FoldLeft(LAMBDA a, tr : a + Len(tr) + 1, 0, Traces)

(* What a call let its caller see: everything recorded except the text of  *)
(* a panic message.                                                        *)
Visible(e) == [f \in (DOMAIN e) \ {"panic"} |-> e[f]]

(* A direct call of a routine this target does not have.                   *)
NotThere(x) == x.op = "cmp" /\ x.ok /\ x.skip

vars == <<t, l, base>>
e == Traces[t][l]
ref == Traces[t][l - base + 1]          \* the same call in the reference part

Init == t \in 1..Len(Traces) /\ l = 1 /\ base = 1

Reject(exp) == PrintT("REJECT " \o ToJson([t |-> t, l |-> l, expected |-> exp])) /\ FALSE

Step == IF e.op = "config" THEN base' = l
        ELSE /\ UNCHANGED base
             /\ IF Visible(e) = Visible(ref) \/ NotThere(e) \/ NotThere(ref) THEN TRUE ELSE Reject(Visible(ref))

Next == l <= Len(Traces[t]) /\ Step /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
View == <<t, l>>
Accepted == TLCGet("stats").distinct = TotalStates
=============================================================================
