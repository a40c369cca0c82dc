------------------------------- MODULE AHash ----------------------------------
(***************************************************************************)
(* What a population of hashers is, to its users: each is its parameters,  *)
(* the message so far and a flag; calls on one never touch another; what a *)
(* call returns is a function of that.  (Api.tla is this with the real     *)
(* sizes, all entry points and all objects.)  The design models refine it. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS BLOCK, LANES, ZERO, Compress(_, _, _, _, _), Init0(_), Pieces(_, _), Keys
VARIABLES ab, out       \* id -> [key, msg, ln];  what the last finished call returned
M == INSTANCE Mode WITH Count <- LAMBDA n : n

DigestOf(o) == M!Hash(Init0(o.key), o.key, Len(o.msg), LAMBDA i : o.msg[i + 1], o.ln)

Init == ab = [x \in {} |-> x] /\ out = <<>>
New(x, key, ln) == ab' = (x :> [key |-> key, msg |-> <<>>, ln |-> ln]) @@ ab /\ out' = <<"new", x>>
Upd(x, in) == x \in DOMAIN ab /\ ab' = [ab EXCEPT ![x].msg = @ \o in] /\ out' = <<"upd", x>>
Clone(x, y) == x \in DOMAIN ab /\ ab' = (y :> ab[x]) @@ ab /\ out' = <<"clone", y>>
Last(x, b) == x \in DOMAIN ab /\ ab' = [ab EXCEPT ![x].ln = b] /\ out' = <<"last", x>>
Fin(x) == x \in DOMAIN ab /\ UNCHANGED ab /\ out' = <<"fin", x, DigestOf(ab[x])>>
Cnt(x) == x \in DOMAIN ab /\ UNCHANGED ab /\ out' = <<"cnt", x, Len(ab[x].msg)>>

Step(Ids) == \E x \in Ids : \/ \E key \in Keys, b \in BOOLEAN : New(x, key, b)
                            \/ x \in DOMAIN ab /\ \E in \in Pieces(x, Len(ab[x].msg)) : Upd(x, in)
                            \/ \E y \in Ids : Clone(x, y)
                            \/ \E b \in BOOLEAN : Last(x, b)
                            \/ Fin(x) \/ Cnt(x)
=============================================================================
