------------------------------- MODULE CtTrace -------------------------------
(***************************************************************************)
(* Independence of secrets, as an observer of time sees a call: `path` is  *)
(* the sequence of machine instructions a call executed (a hash of their   *)
(* addresses, and their number n); `mem` is the sequence of places in      *)
(* memory it accessed, with the operands of its divisions (a hash).        *)
(* WATCH says which of them is observed.  The observation must be a        *)
(* function of the public shape of the call alone: `seen` maps each shape  *)
(* to the observation of its first call, and every later call of that      *)
(* shape, on other secrets, must be observed the same.                     *)
(*                                                                         *)
(*   ct   a comparison of a hash with a hash or a slice.                   *)
(*        public: the operator and the two lengths.  secret: all bytes.    *)
(*   cth  a complete computation, from parameters to digest.               *)
(*        public: the function, key and hash length, lengths of the        *)
(*        pieces.  secret: key bytes and message bytes.                    *)
(*                                                                         *)
(* A configuration (a different program) starts with nothing seen.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

VARIABLES t, l, seen

Files == JsonDeserialize(IOEnv.MANIFEST)
Traces == TLCEval([i \in 1..Len(Files) |-> ndJsonDeserialize(Files[i])])
TotalStates == FoldLeft(LAMBDA a, tr : a + Len(tr) + 1, 0, Traces)

vars == <<t, l, seen>>
e == Traces[t][l]
Nothing == [x \in {} |-> x]
Init == t \in 1..Len(Traces) /\ l = 1 /\ seen = Nothing
Reject(exp) == PrintT("REJECT " \o ToJson([t |-> t, l |-> l, expected |-> exp])) /\ FALSE

Public(x) == IF x.op = "ct" THEN <<"ct", x.f, Len(x.va), Len(x.vb)>>
             ELSE <<"cth", x.kind, x.kl, x.hl, x.pieces, x.force>>
Observed(x) == IF IOEnv.WATCH = "mem" THEN x.mem ELSE <<x.n, x.path>>

Correct(x) ==         \* of a comparison: what it says is right, too
  x.op = "ct" => x.res = (IF x.f \in {"eq", "eqs"} THEN x.va = x.vb ELSE x.va # x.vb)

Observe ==
  LET k == Public(e) IN
  IF k \in DOMAIN seen
  THEN (IF seen[k] = Observed(e) THEN UNCHANGED seen ELSE Reject(seen[k]))
  ELSE seen' = (k :> Observed(e)) @@ seen

Step ==
  CASE e.op = "config" -> seen' = Nothing
    [] e.op = "reset"  -> UNCHANGED seen
    [] e.op \in {"ct", "cth"} ->
         IF ~e.ok THEN Reject("must not panic")
         ELSE IF e.skip THEN UNCHANGED seen
         ELSE IF ~Correct(e) THEN Reject("comparison by value")
         ELSE Observe
    [] OTHER -> Reject("no such action") /\ UNCHANGED seen

Next == l <= Len(Traces[t]) /\ Step /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
View == <<t, l>>
Accepted == TLCGet("stats").distinct = TotalStates
=============================================================================
