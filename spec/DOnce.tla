-------------------------------- MODULE DOnce ---------------------------------
(***************************************************************************)
(* Design model: the one-shot joint calls (C13, C14, C15, and the index    *)
(* arithmetic of C22).  One behaviour per call: every mix of input lengths *)
(* up to MaxLen, keyed or not, every mix of flags.  Impl asserts that no   *)
(* index leaves its input and no length goes below zero.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS BLOCK, N, MaxLen, KeySizes, Bug

ZERO == <<0, 0, 0>>
Free(h, b, t, last, node) == Append(h, <<b, t, last, node>>)
I == INSTANCE Impl WITH LANES <- N, OUT <- 1, Compress <- Free
M == INSTANCE Mode WITH LANES <- N, Compress <- Free, Count <- LAMBDA n : n

Lane == 1..N
Key(k) == [i \in 1..k |-> <<2, 0, i>>]
Init0(x, k) == << <<"init", x, k>> >>
Input(x, d) == [i \in 1..d |-> <<1, x, i - 1>>]

VARIABLES call, res       \* res: <<"panic">>, or the digests
vars == <<call, res>>
Params == [key : { Key(k) : k \in KeySizes }, ln : BOOLEAN]
Init == /\ \/ call \in [op : {"hash8"}, ps : [Lane -> Params], len : [Lane -> 0..MaxLen]]
           \/ call \in [op : {"exact"}, p : Params, len : [Lane -> 0..MaxLen]]
        /\ res = <<>>
Next == /\ res = <<>>
        /\ LET ins == [x \in Lane |-> Input(x, call.len[x])] IN
           res' = IF call.op = "hash8"
                  THEN IF I!Hash8Accepts(call.ps) THEN I!Hash8(call.ps, [x \in Lane |-> Init0(x, Len(call.ps[x].key))], ins) ELSE <<"panic">>
                  ELSE IF I!ExactAccepts(ins) THEN I!Exact(call.p, Init0(1, Len(call.p.key)), ins) ELSE <<"panic">>
        /\ UNCHANGED call
Spec == Init /\ [][Next]_vars

Own(x, h0, p) == M!Hash(h0, p.key, call.len[x], LAMBDA i : <<1, x, i>>, p.ln)
MustPanic == CASE call.op = "hash8" -> \E x \in Lane : call.ps[x].key # <<>>
               [] call.op = "exact" -> \/ \E x \in Lane : call.len[x] # call.len[1] \/ call.len[x] % BLOCK # 0 \/ call.len[x] = 0
Right == CASE res = <<>> -> TRUE
           [] res = <<"panic">> -> MustPanic
           [] OTHER -> /\ ~MustPanic
                       /\ \A x \in Lane : res[x] = IF call.op = "hash8" THEN Own(x, Init0(x, 0), call.ps[x]) ELSE Own(x, Init0(1, Len(call.p.key)), call.p)
=============================================================================
