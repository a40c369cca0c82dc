------------------------------- MODULE DSecret --------------------------------
(***************************************************************************)
(* Design model: two runs of the same calls on secrets of the same length  *)
(* (keys, message bytes, hashes), step by step side by side (C20, C21,     *)
(* C23, C24).  Contents range over everything, zero bytes included, in each run *)
(* independently.                                                          *)
(*   SameSteps : both runs take the same branch and touch the same places. *)
(*   SameDebug : Debug output, a function of what it prints, is the same.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS BLOCK, MaxLen, KeySizes, Bug

ZERO == 0
Free(h, b, t, last, node) == Append(h, <<t, last, node>>)     \* what is computed does not matter here
I == INSTANCE Impl WITH LANES <- 2, OUT <- 1, Compress <- Free
Contents(d) == [1..d -> {0, 1}]
Run == {1, 2}

VARIABLES s,       \* run -> hasher
          in,      \* run -> input not yet consumed
          at,      \* where the update is
          n,       \* bytes input
          obs,     \* run -> what the last step showed
          cmp      \* comparison in progress: [x, y, i, acc] for each run
vars == <<s, in, at, n, obs, cmp>>
Idle == [x |-> <<>>, y |-> <<>>, i |-> 0, acc |-> FALSE]

Init == /\ \E k \in KeySizes, ln \in BOOLEAN : \E key \in [Run -> Contents(k)] :
             s = [r \in Run |-> I!NewState(<<"init">>, key[r], ln)]
        /\ in = [r \in Run |-> <<>>] /\ at = "idle" /\ n = 0
        /\ obs = [r \in Run |-> <<>>] /\ cmp = [r \in Run |-> Idle]

AllZero(b) == \A i \in DOMAIN b : b[i] = 0
Call == /\ at = "idle"
        /\ \E d \in 0..(MaxLen - n) : \E c \in [Run -> Contents(d)] : in' = c /\ n' = n + d
        /\ at' = "buffer" /\ UNCHANGED <<s, obs, cmp>>
(* Each step records the branch it takes and the places it reads, writes.  *)
Branch(f(_)) == obs' = [r \in Run |-> f(r)]
Buffer == /\ at = "buffer" /\ at' = "direct"
          /\ LET c == [r \in Run |-> I!CompressIfPossible(s[r], in[r])] IN
             /\ s' = [r \in Run |-> c[r].s] /\ in' = [r \in Run |-> c[r].in]
             /\ Branch(LAMBDA r : <<"buffer", s[r].len, Len(in[r]) - Len(c[r].in), Len(c[r].s.h) - Len(s[r].h)>>)
          /\ UNCHANGED <<n, cmp>>
(* the place a table-driven compression would read *)
Place(r) == IF Bug = "table" THEN in[r][1] ELSE 0
Skip(r) == Bug = "skipzero" /\ AllZero(SubSeq(in[r], 1, BLOCK))
Direct == /\ at = "direct"
          /\ IF I!GoesDirect(in[1])
             THEN /\ LET d == [r \in Run |-> I!DirectOne(s[r], in[r])] IN
                     /\ s' = [r \in Run |-> IF Skip(r) THEN [d[r].s EXCEPT !.h = s[r].h] ELSE d[r].s] /\ in' = [r \in Run |-> d[r].in]
                     /\ Branch(LAMBDA r : <<"direct", Len(in[r]), Skip(r), Place(r)>>)
                  /\ at' = "direct"
             ELSE /\ LET f == [r \in Run |-> I!Fill(s[r], in[r])] IN
                     /\ s' = [r \in Run |-> f[r].s] /\ in' = [r \in Run |-> f[r].in]
                     /\ Branch(LAMBDA r : <<"rest", Len(in[r])>>)
                  /\ at' = "idle"
          /\ UNCHANGED <<n, cmp>>
Finalize == /\ at = "idle"
            /\ LET f == [r \in Run |-> I!Finalize(s[r])] IN
               /\ s' = [r \in Run |-> f[r].s]
               /\ Branch(LAMBDA r : <<"fin", s[r].len>>)
            /\ UNCHANGED <<in, at, n, cmp>>

(* Comparing two equally long byte strings: all differences are gathered.  *)
Compare == /\ at = "idle" /\ n = 0
           /\ \E k \in 0..2 : \E x, y \in [Run -> Contents(k)] : cmp' = [r \in Run |-> [x |-> x[r], y |-> y[r], i |-> 1, acc |-> FALSE]]
           /\ at' = "cmp" /\ UNCHANGED <<s, in, n, obs>>
Ends(c) == c.i > Len(c.x) \/ (Bug = "early" /\ c.acc)
CompareStep == /\ at = "cmp"
               /\ Branch(LAMBDA r : <<"cmp", cmp[r].i, Ends(cmp[r]), IF Bug = "tablecmp" /\ ~Ends(cmp[r]) THEN cmp[r].x[cmp[r].i] ELSE 0>>)
               /\ IF \A r \in Run : Ends(cmp[r]) THEN at' = "idle" /\ cmp' = [r \in Run |-> Idle]
                  ELSE at' = "cmp" /\ cmp' = [r \in Run |-> IF Ends(cmp[r]) THEN cmp[r] ELSE [cmp[r] EXCEPT !.acc = @ \/ cmp[r].x[cmp[r].i] # cmp[r].y[cmp[r].i], !.i = @ + 1]]
               /\ UNCHANGED <<s, in, n>>

Next == Call \/ Buffer \/ Direct \/ Finalize \/ Compare \/ CompareStep
Spec == Init /\ [][Next]_vars

Debug(x) == <<I!CountOf(x), x.ln, IF Bug = "debugbuf" THEN x.buf[1] ELSE 0>>
SameSteps == [][obs'[1] = obs'[2]]_vars
View == <<s, in, at, n, cmp>>
SameDebug == Debug(s[1]) = Debug(s[2])
SameShape == s[1].len = s[2].len /\ s[1].count = s[2].count /\ Len(in[1]) = Len(in[2]) /\ Len(s[1].h) = Len(s[2].h)
=============================================================================
