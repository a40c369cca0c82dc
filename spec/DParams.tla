------------------------------- MODULE DParams --------------------------------
(***************************************************************************)
(* Design model: a parameter builder (C02, C03, C04).  Fields of fixed     *)
(* width in base D "bytes", packed into words of W digits; setters called  *)
(* any number of times in any order, with acceptable and unacceptable      *)
(* arguments.  Ghost v: the argument each setter last accepted.            *)
(*   Packed : the words are the parameter block, digit by digit, of v.     *)
(*   Keyed  : the key block is the last key, padded, with no residue.      *)
(*   Refuse : a setter panics exactly on arguments out of range, and       *)
(*            then nothing changes.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Bug

D == 4            \* a byte counts 0..D-1
W == 4            \* bytes to a word
KMAX == 2         \* key bytes (32)
SMAX == 2         \* salt, personalization bytes (8)
OUTMAX == 2       \* 32

Strings == {<<>>, <<1>>, <<2>>, <<0>>, <<1, 2>>, <<0, 1>>, <<3, 3, 3>>}
Args == [hl |-> 0..3, key |-> Strings, salt |-> {<<>>, <<1>>, <<1, 2>>, <<3, 3, 3>>}, pers |-> {<<>>, <<2>>, <<2, 1>>, <<3, 3, 3>>},
         fan |-> {0, 2}, dep |-> {0, 1, 3}, leaf |-> {0, 7, 255}, noff |-> {0, 255, 256, 4095, 4096, 65535}, nd |-> {0, 3}, ihl |-> {0, 2, 3}, ln |-> {FALSE, TRUE}]
Fields == DOMAIN Args
Accepts(f, x) == CASE f = "hl" -> x \in 1..OUTMAX
                   [] f = "key" -> Len(x) <= KMAX
                   [] f \in {"salt", "pers"} -> Len(x) <= SMAX
                   [] f = "dep" -> x # 0
                   [] f = "noff" -> x < 4096          \* D^6: 48 bits of bytes
                   [] f = "ihl" -> x <= OUTMAX
                   [] OTHER -> TRUE
Default == [hl |-> OUTMAX, key |-> <<>>, salt |-> <<>>, pers |-> <<>>, fan |-> 1, dep |-> 1, leaf |-> 0, noff |-> 0, nd |-> 0, ihl |-> 0, ln |-> FALSE]

Pad(x, n) == [i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE 0]
Digit(x, i) == (x \div (D ^ i)) % D
(* What has to come out (the parameter block, byte by byte).               *)
Wanted(v) == << v.hl, Len(v.key), v.fan, v.dep >> \o [i \in 1..W |-> Digit(v.leaf, i - 1)] \o [i \in 1..W |-> Digit(v.noff, i - 1)]
             \o << Digit(v.noff, 4), Digit(v.noff, 5), v.nd, v.ihl >> \o Pad(v.salt, SMAX) \o Pad(v.pers, SMAX)
WantedKey(v) == IF v.key = <<>> THEN <<>> ELSE Pad(v.key, KMAX)

VARIABLES p, v, panicked
vars == <<p, v, panicked>>
View == <<p, v>>

(* The builder: arrays of fixed size, lengths apart.                       *)
New == [hl |-> OUTMAX, klen |-> 0, key |-> Pad(<<>>, KMAX), salt |-> Pad(<<>>, SMAX), pers |-> Pad(<<>>, SMAX), fan |-> 1, dep |-> 1, leaf |-> 0,
        noff |-> 0, nd |-> 0, ihl |-> 0, ln |-> FALSE]
Over(old, x) == [i \in DOMAIN old |-> IF i <= Len(x) THEN x[i] ELSE old[i]]
Guard(f, x) == Accepts(f, x) \/ (Bug = "hl0" /\ f = "hl" /\ x = 0) \/ (Bug = "noff" /\ f = "noff")
Apply(f, x) ==
  CASE f = "key" -> [p EXCEPT !.klen = Len(x), !.key = IF Bug = "residue" THEN Over(@, x) ELSE Pad(x, KMAX)]
    [] f \in {"salt", "pers"} -> [p EXCEPT ![f] = IF Bug = "saltresidue" THEN Over(@, x) ELSE Pad(x, SMAX)]
    [] f = "leaf" /\ Bug = "leafcut" -> [p EXCEPT !.leaf = x % (D * D)]
    [] OTHER -> [p EXCEPT ![f] = x]

Set(f, x) ==
  IF Guard(f, x) THEN p' = Apply(f, x) /\ v' = [v EXCEPT ![f] = x] /\ panicked' = <<f, x, FALSE>>
  ELSE /\ p' = (IF Bug = "latepanic" /\ f = "key" THEN [p EXCEPT !.klen = KMAX] ELSE p)
       /\ v' = v /\ panicked' = <<f, x, TRUE>>
Init == p = New /\ v = Default /\ panicked = <<>>
Next == \E f \in Fields : \E x \in Args[f] : Set(f, x)
Spec == Init /\ [][Next]_vars

Words(q) ==       \* make_words: shifted fields combined by exclusive or, here addition without carry
  LET hi == q.noff \div (D ^ W) IN
  << q.hl, q.klen, q.fan, q.dep >> \o [i \in 1..W |-> Digit(q.leaf, i - 1)] \o [i \in 1..W |-> Digit(q.noff, i - 1)]
  \o (IF Bug = "overlap" THEN << Digit(hi, 0), (Digit(hi, 1) + q.nd) % D, 0, q.ihl >> ELSE << Digit(hi, 0), Digit(hi, 1), (Digit(hi, 2) + q.nd) % D, (Digit(hi, 3) + q.ihl) % D >>)
  \o q.salt \o q.pers
KeyBlock(q) == IF q.klen = 0 THEN <<>> ELSE q.key

Packed == Words(p) = Wanted(v)
Keyed == KeyBlock(p) = WantedKey(v)
Refuse == [][panicked'[3] = ~Accepts(panicked'[1], panicked'[2]) /\ (panicked'[3] => UNCHANGED <<p, v>>)]_vars
InRange == \A f \in Fields : Accepts(f, v[f])
=============================================================================
