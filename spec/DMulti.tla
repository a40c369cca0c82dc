------------------------------- MODULE DMulti ---------------------------------
(***************************************************************************)
(* Design model: N hashers that are updated and finalized together or      *)
(* singly, in any order, with inputs of any mix of lengths (C12; C06, C08  *)
(* for the joint calls).  Ghost: the number of bytes each took in.         *)
(*   Rep  : each hasher is in the state a hasher fed alone would be in.    *)
(*   Ret  : a joint finalization returns each hasher's own digest.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS BLOCK, N, MaxLen, MaxPiece, KeySizes, Bug

ZERO == <<0, 0, 0>>
Free(h, b, t, last, node) == Append(h, <<b, t, last, node>>)
I == INSTANCE Impl WITH LANES <- N, OUT <- 1, Compress <- Free
M == INSTANCE Mode WITH LANES <- N, Compress <- Free, Count <- LAMBDA n : n

Lane == 1..N
Key(k) == [i \in 1..k |-> <<2, 0, i>>]
Init0(x, k) == << <<"init", x, k>> >>
MsgAt(x, i) == <<1, x, i>>
Piece(x, n, d) == [i \in 1..d |-> MsgAt(x, n + i - 1)]

VARIABLES hs, key, n, ln, ret
vars == <<hs, key, n, ln, ret>>
View == <<hs, key, n, ln>>

Init == /\ key \in [Lane -> KeySizes]
        /\ ln \in [Lane -> BOOLEAN]
        /\ n = [x \in Lane |-> 0]
        /\ hs = [x \in Lane |-> I!NewState(Init0(x, key[x]), Key(key[x]), ln[x])]
        /\ ret = <<>>

UpdateAll == \E d \in [Lane -> 0..MaxPiece] :
  /\ \A x \in Lane : n[x] + d[x] <= MaxLen
  /\ hs' = I!Update8(hs, [x \in Lane |-> Piece(x, n[x], d[x])])
  /\ n' = [x \in Lane |-> n[x] + d[x]]
  /\ ret' = <<>>
  /\ UNCHANGED <<key, ln>>
UpdateOne == \E x \in Lane, d \in 0..MaxPiece :
  /\ n[x] + d <= MaxLen
  /\ hs' = [hs EXCEPT ![x] = I!Update(@, Piece(x, n[x], d))]
  /\ n' = [n EXCEPT ![x] = @ + d]
  /\ ret' = <<>>
  /\ UNCHANGED <<key, ln>>
FinalizeAll == LET f == I!Finalize8(hs) IN hs' = f.ss /\ ret' = f.d /\ UNCHANGED <<key, n, ln>>
FinalizeOne == \E x \in Lane : LET f == I!Finalize(hs[x]) IN
  hs' = [hs EXCEPT ![x] = f.s] /\ ret' = <<>> /\ UNCHANGED <<key, n, ln>>
SetLast == \E x \in Lane : hs' = [hs EXCEPT ![x].ln = ~@] /\ ln' = [ln EXCEPT ![x] = ~@] /\ ret' = <<>> /\ UNCHANGED <<key, n>>
Next == UpdateAll \/ UpdateOne \/ FinalizeAll \/ FinalizeOne \/ SetLast
Spec == Init /\ [][Next]_vars

Rep == \A x \in Lane :
  LET s == hs[x]
      k == Key(key[x])
      t == M!KeyLen(k) + n[x]
      At(i) == MsgAt(x, i)
      full == I!Done(t, BLOCK)
  IN  /\ s.count = t
      /\ s.len = I!Held(t, BLOCK)
      /\ s.h = M!Chain(<<Init0(x, key[x])>>, k, n[x], At, full)[full + 1]
      /\ \A i \in 1..s.len : s.buf[i] = M!DataAt(k, n[x], At, BLOCK * full + i - 1)
      /\ s.ln = ln[x]
Ret == [][ret' # <<>> => \A x \in Lane : ret'[x] = M!Hash(Init0(x, key[x]), Key(key[x]), n[x], LAMBDA i : MsgAt(x, i), ln[x])]_vars
=============================================================================
