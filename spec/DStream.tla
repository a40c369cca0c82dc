------------------------------ MODULE DStream ---------------------------------
(***************************************************************************)
(* Design model: hashers fed by threads, one hasher each, at the           *)
(* granularity of single buffer fills and compressions, in every           *)
(* interleaving.  TLC explores all behaviours up to MaxLen bytes a hasher, *)
(* every cutting into pieces, every placing of finalize, count, clone,     *)
(* set_last_node; the compression function is free, so two digests are     *)
(* equal only if they are the same compressions.                           *)
(*   Refines : the whole is AHash.                                         *)
(*   Rep     : what the buffer, the chaining value and the counter are.    *)
(*   Buffering : the lengths follow Control (what GenStream enumerates).   *)
(*   OneCall : the micro-steps of an update add up to Impl!Update.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS BLOCK, Ids, MaxLen, MaxPiece, KeySizes, Flags, Threads, Bug

ZERO == <<0, 0, 0>>
Free(h, b, t, last, node) == Append(h, <<b, t, last, node>>)
I == INSTANCE Impl WITH LANES <- 2, OUT <- 1, Compress <- Free

Keys == { [i \in 1..k |-> <<2, 0, i>>] : k \in KeySizes }
Init0(key) == << <<"init", Len(key)>> >>
Piece(x, n, d) == [i \in 1..d |-> <<1, x, n + i>>]
Pieces(x, n) == { Piece(x, n, d) : d \in 0..MaxPiece }

VARIABLES hs,      \* id -> implementation state of a hasher
          gh,      \* id -> [key, msg, ln]
          frame,   \* id -> the update in progress, or Idle
          scratch, \* memory the threads might share
          ret
vars == <<hs, gh, frame, scratch, ret>>

A == INSTANCE AHash WITH ab <- gh, out <- ret, LANES <- 2, Compress <- Free

Idle == [at |-> "idle"]
Busy(x) == x \in DOMAIN frame /\ frame[x].at # "idle"
Quiet == \A x \in DOMAIN frame : ~Busy(x)
Free2(x) == x \in DOMAIN hs /\ ~Busy(x) /\ (Threads \/ Quiet)

Init == hs = [x \in {} |-> x] /\ gh = [x \in {} |-> x] /\ frame = [x \in {} |-> x] /\ scratch = <<>> /\ ret = <<>>

(* the first hasher is made of parameters; others too, or by cloning       *)
New(x, key, ln) ==
  /\ Quiet /\ x \notin DOMAIN hs /\ \A y \in DOMAIN hs : y < x
  /\ hs' = (x :> I!NewState(Init0(key), key, ln)) @@ hs
  /\ gh' = (x :> [key |-> key, msg |-> <<>>, ln |-> ln]) @@ gh
  /\ frame' = (x :> Idle) @@ frame
  /\ ret' = <<"new", x>>
  /\ UNCHANGED scratch
Clone(x, y) ==
  /\ Quiet /\ Free2(x) /\ y \in DOMAIN hs \cup {Cardinality(DOMAIN hs) + 1} /\ y # x
  /\ hs' = (y :> IF Bug = "clonebuf" THEN [hs[x] EXCEPT !.buf = I!Fresh(BLOCK)] ELSE hs[x]) @@ hs
  /\ gh' = (y :> gh[x]) @@ gh
  /\ frame' = (y :> Idle) @@ frame
  /\ ret' = <<"clone", y>>
  /\ UNCHANGED scratch
SetLast(x, b) ==
  /\ Free2(x)
  /\ hs' = [hs EXCEPT ![x].ln = b]
  /\ gh' = [gh EXCEPT ![x].ln = b]
  /\ ret' = <<"last", x>>
  /\ UNCHANGED <<frame, scratch>>
Count(x) ==
  /\ Free2(x)
  /\ ret' = <<"cnt", x, I!CountOf(hs[x])>>
  /\ UNCHANGED <<hs, gh, frame, scratch>>
Finalize(x) ==
  /\ Free2(x)
  /\ LET f == I!Finalize(hs[x]) IN
     /\ hs' = [hs EXCEPT ![x] = f.s]
     /\ ret' = <<"fin", x, f.d>>
  /\ UNCHANGED <<gh, frame, scratch>>

---------------------------------------------------------------------------
(* An update, step by step. *)
Call(x, d) ==
  /\ Free2(x)
  /\ Len(gh[x].msg) + d <= MaxLen
  /\ LET p == Piece(x, Len(gh[x].msg), d) IN
     frame' = [frame EXCEPT ![x] = [at |-> "buffer", in |-> p, piece |-> p, entry |-> hs[x]]]
  /\ UNCHANGED <<hs, gh, scratch, ret>>
Goto(x, at, in) == frame' = [frame EXCEPT ![x].at = at, ![x].in = in]
At(x, p) == x \in DOMAIN frame /\ frame[x].at = p

FillBuffer(x) ==
  /\ At(x, "buffer")
  /\ IF hs[x].len = 0 THEN Goto(x, "direct", frame[x].in) /\ UNCHANGED <<hs, scratch>>
     ELSE LET f == I!Fill(hs[x], frame[x].in) IN
          /\ hs' = [hs EXCEPT ![x] = f.s]
          /\ scratch' = (IF Bug = "shared" THEN f.s.buf ELSE scratch)
          /\ Goto(x, IF f.in # <<>> \/ (Bug = "eager" /\ f.s.len = BLOCK) THEN "compress" ELSE "direct", f.in)
  /\ UNCHANGED <<gh, ret>>
Compress(x) ==
  /\ At(x, "compress")
  /\ hs' = [hs EXCEPT ![x] = I!CompressBuffer(IF Bug = "shared" THEN [hs[x] EXCEPT !.buf = scratch] ELSE hs[x])]
  /\ Goto(x, "direct", frame[x].in)
  /\ UNCHANGED <<gh, scratch, ret>>
DirectStep(x) ==
  /\ At(x, "direct")
  /\ IF I!GoesDirect(frame[x].in)
     THEN LET d == I!DirectOne(hs[x], frame[x].in) IN hs' = [hs EXCEPT ![x] = d.s] /\ Goto(x, "direct", d.in)
     ELSE Goto(x, "rest", frame[x].in) /\ UNCHANGED hs
  /\ UNCHANGED <<gh, scratch, ret>>
Rest(x) ==
  /\ At(x, "rest")
  /\ LET f == I!Fill(hs[x], frame[x].in) IN
     /\ Assert(f.in = <<>> \/ Bug # "none", "an update leaves input over")
     /\ hs' = [hs EXCEPT ![x] = f.s]
  /\ gh' = [gh EXCEPT ![x].msg = @ \o frame[x].piece]
  /\ ret' = <<"upd", x>>
  /\ frame' = [frame EXCEPT ![x] = Idle]
  /\ UNCHANGED scratch

Next == \E x \in Ids :
  \/ \E key \in Keys, b \in Flags : New(x, key, b)
  \/ \E y \in Ids : Clone(x, y)
  \/ \E b \in Flags : SetLast(x, b)
  \/ Count(x) \/ Finalize(x)
  \/ \E d \in 0..MaxPiece : Call(x, d)
  \/ FillBuffer(x) \/ Compress(x) \/ DirectStep(x) \/ Rest(x)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What was last returned is not part of the state (Refines is about steps). *)
View == <<hs, gh, frame, scratch>>

Refines == A!Init /\ [][A!Step(Ids)]_<<gh, ret>>

Rep == \A x \in DOMAIN hs : ~Busy(x) =>
  LET s == hs[x]
      o == gh[x]
      n == A!M!KeyLen(o.key) + Len(o.msg)
      MsgAt(i) == o.msg[i + 1]
      data(i) == A!M!DataAt(o.key, Len(o.msg), MsgAt, i)
      full == I!Done(n, BLOCK)
      chain == A!M!Chain(<<Init0(o.key)>>, o.key, Len(o.msg), MsgAt, full)
  IN  /\ s.count = n
      /\ s.len = I!Held(n, BLOCK)
      /\ s.h = chain[full + 1]
      /\ \A i \in 1..s.len : s.buf[i] = data(BLOCK * full + i - 1)
      /\ s.ln = o.ln
      /\ s.keyed = (o.key # <<>>)

InBounds == \A x \in DOMAIN hs : hs[x].len \in 0..BLOCK /\ Len(hs[x].buf) = BLOCK
OneCall == [][\A x \in DOMAIN frame : At(x, "rest") /\ ~Busy(x)' => hs'[x] = I!Update(frame[x].entry, frame[x].piece)]_vars
(* Steps on one hasher leave every other as it was. *)
Isolated == [][\A x, y \in DOMAIN hs : x # y /\ hs'[x] # hs[x] => hs'[y] = hs[y]]_vars
=============================================================================
