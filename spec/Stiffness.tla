------------------------------ MODULE Stiffness ------------------------------
(* Stiffness detection of the explicit Runge-Kutta(-Nystrom) methods (Shampine 1991; RKSuite).
   Bookkeeping:   ok   accepted steps,  jf  rejections in the present window,
   after every accepted step: the window closes at the Reset-th step and whenever ok mod Period = Period - 1; then "lots" if
   the window held Lots rejections or more.  The problem is assessed if lots, or if ok mod M = M - 1 (M = max(1, evaluations /
   stages)), M = 0: never.
   Assessment:  not stiff, without work, if the last step differs a factor 5 from the average, or if the remaining work is
   within the budget; else a nonlinear power iteration (MaxTry tries of three products; a single real root may be found after
   each product but the first of all, a pair of roots after the third), and a verdict from the roots.                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Reset, Period, Lots, MaxTry

BookStart == [ok |-> 0, jf |-> 0]
Closing(b, rej) == (b.ok + 1) % Period = Period - 1
Lotsfl(b, rej) == Closing(b, rej) /\ (IF b.ok + 1 = Reset THEN 0 ELSE b.jf + rej) >= Lots
Toomch(b, M) == M > 0 /\ (b.ok + 1) % M = M - 1
Occasion(b, rej, M) == M > 0 /\ (Toomch(b, M) \/ Lotsfl(b, rej))
Booked(b, rej) == [ok |-> b.ok + 1, jf |-> IF b.ok + 1 = Reset \/ Closing(b, rej) THEN 0 ELSE b.jf + rej]

(* Position n = 1, 2, ... of a product in the iteration *)
Pos(n) == (n - 1) % 3
Last(n) == n = 3*MaxTry
(* What is tested after product n *)
TestsSmall(n) == n = 1
TestsReal(n) == n > 1
TestsPair(n) == Pos(n) = 2
TestsLarge(n) == Pos(n) = 0

(* Verdict from the roots: r = [left, near2, right2, axis, out]:
     left    dominant root in the closed left half plane
     near2   second root of comparable size in the right half plane
     axis    dominant root nearer to the imaginary axis than the stability boundary is known
     out     the average step is at the stability boundary                                                         *)
Verdict(r) == IF ~r.left THEN "not" ELSE IF r.near2 THEN "not" ELSE IF r.axis THEN "unsure" ELSE IF r.out THEN "stiff" ELSE "not"
(* What the user is told: root "real", "pair" or "none" (not found) *)
Warns(verdict, root, lots) ==
    IF verdict = "stiff" THEN root
    ELSE IF verdict = "unsure" /\ root = "pair" /\ lots THEN "osc"
    ELSE "none"
=============================================================================
