------------------------------ MODULE Outputs ------------------------------
(* The outputs at the current time follow the states at the delayed horizon:
   the raw motion since the horizon is added to what was output there, and what
   was output there is steered to the state with a proportional and an integral
   part.  Scaled integers; gains in 1/Unit, the integral part in 1/100. *)
EXTENDS Integers, Sequences
CONSTANT Unit
Mul(x, g) == (x \div Unit) * g + (((x % Unit) * g) \div Unit)
(* gain of a time constant tau (same unit as period), kept between one period and the slowest *)
Gain(period, tau, slowest) == (Unit * period) \div (IF tau < period THEN period ELSE IF tau > slowest THEN slowest ELSE tau)
(* a component: err = state - output, both at the horizon; c = integral part *)
IntegralPart(c, err, g) == c + Mul(err, (10 * g * g) \div Unit)
Correction(c, err, g) == Mul(err, g) + (IntegralPart(c, err, g) \div 100)
=============================================================================
