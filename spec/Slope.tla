-------------------------------- MODULE Slope --------------------------------
(***************************************************************************)
(* What it means for a number g to be the derivative of a function.        *)
(*                                                                         *)
(* A record holds the increments of the function over -h, -h/2, h/2, h     *)
(* (z, in a common unit), the claimed derivative times h (g, same unit)    *)
(* and the rounding noise of the increments.  Where the function looks     *)
(* differentiable at both scales (its difference quotients agree with each *)
(* other), the claimed derivative has to agree with them.  Where it has a  *)
(* jump or a corner, only finiteness is required.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Mag(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a < b THEN b ELSE a
Big(z, g) == MaxOf(MaxOf(Mag(z[1]), Mag(z[4])), MaxOf(MaxOf(Mag(z[2]), Mag(z[3])), Mag(g)))
Slack(z, g, noise) == Big(z, g) \div 50 + 4 * noise

(* The two halves of each side continue each other, and so do the two sides. *)
Smooth(z, g, noise) ==
  LET s == Slack(z, g, noise) \div 4
  IN /\ Mag(z[1] - 2 * z[2]) <= s
     /\ Mag(z[4] - 2 * z[3]) <= s
     /\ Mag(z[4] + z[1]) <= s
Agrees(z, g, noise) == Mag(2 * g - (z[4] - z[1])) <= 2 * Slack(z, g, noise)

IsDerivative(z, g, noise) == Smooth(z, g, noise) => Agrees(z, g, noise)
=============================================================================
