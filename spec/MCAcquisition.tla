---------------------------- MODULE MCAcquisition ----------------------------
(* The acquisition functions on a grid, as one state per argument: their
   documented shape follows from the definitions.                            *)
EXTENDS AcqCore
CONSTANTS MuMax, XiMax
VARIABLES mu, s, y, xi, k
vars == << mu, s, y, xi, k >>
Init == /\ mu \in (-MuMax)..MuMax /\ s \in {0, 1, 2, 4} /\ y \in {-4, 0, 3}
        /\ xi \in 0..XiMax /\ k \in {0, 2, 8, Inf}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
tol == 40

TableOK == \A z \in -95..96 : /\ Cdf(z - 1) <= Cdf(z) /\ Cdf(z) \in 0..1000000
                              /\ Cdf(z) + Cdf(-z) = 1000000 /\ Pdf(z) = Pdf(-z)
                              \* the density is the slope of the distribution
                              /\ Abs(16 * (Cdf(z) - Cdf(z - 1)) - (Pdf(z) + Pdf(z - 1)) \div 2) <= 200
imp == Improve4(mu, y, xi)
\* at least the certain improvement, never negative
EIBound == s > 0 => /\ EI(mu, s, y, xi) >= -tol
                    /\ EI(mu, s, y, xi) + tol >= 250000 * imp
\* more promising means, wider beliefs and smaller margins are worth more
Monotone == s > 0 => /\ EI(mu, s, y, xi) + tol >= EI(mu + 1, s, y, xi)
                     /\ PI(mu, s, y, xi) + tol >= PI(mu + 1, s, y, xi)
                     /\ LCB(mu, s, k) <= LCB(mu + 1, s, k)
                     /\ s < 4 => EI(mu, 2 * s, y, xi) + tol >= EI(mu, s, y, xi)
                     /\ LCB(mu, s, k) >= LCB(mu, 2 * s, k)
PIRange == PI(mu, s, y, xi) \in 0..1000000
PIHalf == s > 0 => (imp >= 0 <=> PI(mu, s, y, xi) >= 500000)
Certain == s = 0 => EI(mu, s, y, xi) = 0 /\ PI(mu, s, y, xi) = 0
\* only the difference counts
Shift == /\ EI(mu, s, y, xi) = EI(mu + 4, s, y + 4, xi)
         /\ PI(mu, s, y, xi) = PI(mu, s, y + xi, 2 * xi)
\* the gradients are the slopes
Slope == s > 0 =>
    /\ Abs(EI(mu + 1, s, y, xi) - EI(mu, s, y, xi)
           - (EIGrad(mu, s, y, xi, 1, 0) + EIGrad(mu + 1, s, y, xi, 1, 0)) \div 2) <= 4000
    /\ Abs(PI(mu + 1, s, y, xi) - PI(mu, s, y, xi)
           - (PIGrad(mu, s, y, xi, 1, 0) + PIGrad(mu + 1, s, y, xi, 1, 0)) \div 2) <= 4000
    /\ LCB(mu + 1, s, k) - LCB(mu, s, k) = LCBGrad(k, 1, 0)
    /\ LCB(mu, 2 * s, k) - LCB(mu, s, k) = LCBGrad(k, 0, 4 * s)
=============================================================================
