------------------------------- MODULE HStart -------------------------------
(* The automatic first step, for the problems for which the estimates behind it are known.  Quantities are base-2 logarithms in
   units of 2^-14 octave; NONE stands for the logarithm of zero.

   fam: "zero"    f = 0                     "const"   f = c            "ramp"  f = d (t - t0)
        "linear"  f = lam (y - m) from y0    "rest"    f = lam y from y0 = 0
   p:   c, d, lam (lc: log of the size), ly: log |y0|, d, dx: log of the distance to the end; of that or the largest step, the shorter
        em, el: mean and smallest log of the tolerance atol + rtol |y0|; a: log |t0|; ord: order used
        jt: the slopes in time and y are given (algebraic equations), otherwise they are estimated by differences            *)
EXTENDS Integers
NONE == -999999999
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Oct == 16384
Eps == -53*Oct
RelPer == (Eps*3) \div 8
Tolp(p) == ((p.em + p.el) \div 2) \div (p.ord + 1)
Floor(p) == IF p.a = NONE THEN NONE ELSE 108852 + Eps + p.a            \* 100 eps |t0|

(* bound on f, on its slope in time, on its slope in y *)
Fbnd(fam, p) == CASE fam = "zero" -> NONE
                  [] fam = "const" -> p.lc
                  [] fam = "ramp" -> NONE                              \* f(t0) = 0
                  [] fam = "linear" -> p.lc + p.ly
                  [] fam = "rest" -> IF p.jt THEN NONE ELSE p.lc + RelPer
Lip(fam, p) == IF fam \in {"linear", "rest"} THEN p.lc ELSE NONE
Second(fam, p) == CASE fam \in {"zero", "const"} -> NONE
                    [] fam = "ramp" -> p.lc
                    [] OTHER -> IF Fbnd(fam, p) = NONE THEN NONE ELSE Lip(fam, p) + Fbnd(fam, p)

(* Watts: the step with which the leading term of the error is near the tolerance, but not more than 1/Lipschitz *)
HStart(fam, p) ==
    LET h1 == IF Second(fam, p) = NONE /\ Fbnd(fam, p) = NONE THEN p.dx + Min(Tolp(p), 0)
              ELSE IF Second(fam, p) = NONE THEN Min(p.dx, Tolp(p) - Fbnd(fam, p))
              ELSE Min(p.dx, Tolp(p) - (Second(fam, p) - Oct) \div 2)
        h2 == IF Lip(fam, p) = NONE THEN h1 ELSE Min(h1, -Lip(fam, p))
    IN  IF Floor(p) = NONE THEN h2 ELSE Max(h2, Floor(p))

(* SSV2stab: an Euler step of at most 1/rho is tried; from the change of the slope follows the step with an error of 1/100 of the tolerance *)
RkcStart(fam, p) ==
    LET est == CASE fam \in {"zero", "const"} -> NONE                  \* per squared step
                 [] fam = "ramp" -> p.lc - p.em
                 [] fam = "linear" -> 2*p.lc + p.ly - p.em
                 [] fam = "rest" -> NONE
    IN  IF est = NONE THEN p.dx ELSE Min(p.dx, -54427 - est \div 2)
First(rkc, fam, p) == IF rkc THEN RkcStart(fam, p) ELSE HStart(fam, p)

(* the step attempted: methods of Runge and Kutta do not split the interval into a step and a tiny rest *)
Attempt(half, h, d) == IF h >= d THEN d ELSE IF half /\ h + Oct > d THEN d - Oct ELSE h
MaxCalls(rkc, n) == IF rkc THEN 1 ELSE IF n = 1 THEN 3 ELSE 4
=============================================================================
