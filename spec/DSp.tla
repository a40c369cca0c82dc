--------------------------------- MODULE DSp ----------------------------------
(***************************************************************************)
(* Design model: the tree hasher's double buffer (C10, C11; C06, C08 for   *)
(* it).  Every cutting of a message into pieces, finalize and count        *)
(* anywhere, keyed or not.                                                 *)
(*   Rep       : which bytes are in the buffer, what each leaf compressed. *)
(*   Ready     : no leaf was ever given a block that may be its last.      *)
(*   Ret       : finalize returns the tree digest and changes nothing.     *)
(*   Buffering : lengths follow Control!SpAfter, which GenSp enumerates.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS BLOCK, LANES, OUT, MaxLen, MaxPiece, KeySizes, Bug

ZERO == <<0, 0, 0>>
Free(h, b, t, last, node) == Append(h, <<b, t, last, node>>)
I == INSTANCE Impl WITH Compress <- Free
M == INSTANCE Mode WITH Compress <- Free, Count <- LAMBDA n : n

Key(k) == [i \in 1..k |-> <<2, 0, i>>]
Leaf0(i, k) == << <<"leaf", i, k>> >>      \* i in 0..LANES-1
Root0(k) == << <<"root", k>> >>
MsgAt(i) == <<1, 0, i>>
Piece(n, d) == [i \in 1..d |-> MsgAt(n + i - 1)]

TreeDigest(k, n) ==
  LET leaf(i) == M!Leaf(Leaf0(i, k), Key(k), n, MsgAt, i)
      d == TLCEval([i \in 1..LANES |-> leaf(i - 1)])
  IN  M!Hash(Root0(k), <<>>, OUT * LANES, LAMBDA x : <<3, (x % OUT) + 1, d[(x \div OUT) + 1]>>, TRUE)

VARIABLES t, k, n, ret
vars == <<t, k, n, ret>>
View == <<t, k, n>>

Init == /\ k \in KeySizes /\ n = 0 /\ ret = <<>>
        /\ t = I!SpNew([i \in 1..LANES |-> Leaf0(i - 1, k)], Root0(k), Key(k))
Update == \E d \in 0..MaxPiece :
  /\ n + d <= MaxLen
  /\ t' = I!SpUpdate(t, Piece(n, d))
  /\ n' = n + d /\ ret' = <<>> /\ UNCHANGED k
Finalize == LET f == I!SpFinalize(t) IN t' = f.t /\ ret' = f.d /\ UNCHANGED <<k, n>>
Count == ret' = << I!SpCount(t) >> /\ UNCHANGED <<t, k, n>>
Next == Update \/ Finalize \/ Count
Spec == Init /\ [][Next]_vars

S == BLOCK * LANES
Stripes == (n - t.len) \div S
Rep == /\ n = S * Stripes + t.len
       /\ t.len \in 0..(2 * S)
       /\ \A i \in 1..t.len : t.buf[i] = MsgAt(S * Stripes + i - 1)
       /\ t.root = I!SpNew([i \in 1..LANES |-> Leaf0(i - 1, k)], Root0(k), Key(k)).root
       /\ \A i \in 1..LANES :
            LET key == Key(k)
                blocks == Stripes + (IF k > 0 THEN 1 ELSE 0)
                chain == M!Chain(<<Leaf0(i - 1, k)>>, key, M!LeafLen(n, i - 1), LAMBDA x : MsgAt(M!LeafPos(i - 1, x)), blocks)
            IN  IF Stripes = 0 THEN t.leaf[i] = I!NewState(Leaf0(i - 1, k), key, i = LANES)
                ELSE t.leaf[i].h = chain[blocks + 1] /\ t.leaf[i].len = 0 /\ t.leaf[i].count = BLOCK * blocks
Ready == Stripes > 0 => \A i \in 0..(LANES - 1) : M!LeafLen(n, i) > BLOCK * Stripes
Ret == [][Len(ret') > 1 => ret' = TreeDigest(k, n) /\ t' = t]_vars
Counted == [][Len(ret') = 1 => ret' = <<n>>]_vars
Buffering == [][ n' >= n /\ (Len(ret') = 0) =>
                 LET a == I!SpAfter(t.len, n' - n, LANES, BLOCK) IN t'.len = a.b /\ Stripes' = Stripes + a.g ]_vars
=============================================================================
