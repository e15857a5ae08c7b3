---- MODULE SoftUpdate ----
(* Target networks: sequences of parameters (fixed point) that follow their sources.
   c.tau is in sixteenths.  shared[i] = TRUE when target and source hold the very same parameter. *)
EXTENDS FixMath
Move(tau, src, tgt) == Frac(src, tau, 16) + Frac(tgt, 16 - tau, 16)
MoveAll(tau, src, tgt, shared) == [i \in 1..Len(src) |-> IF shared[i] THEN src[i] ELSE Move(tau, src[i], tgt[i])]
(* admissible configurations of an updater *)
RateOk(tau) == tau >= 0 /\ tau <= 16
ShapesOk(ts, ss) == ts = ss
====
