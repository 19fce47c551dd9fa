----------------------------- MODULE Controller -----------------------------
(* Step size control of the embedded Runge-Kutta, Runge-Kutta-Nystrom and ESDIRK methods, as operators on fixed-point
   base-2 logarithms (U units per factor of two).  An uncertain real quantity is an interval <<lo, hi>>.  A belief is a
   record [std, red, h]: std - the next accepted step uses the first order rule; red - the maximum factor has been
   reduced from its initial value to 4; h - interval of the step size the controller proposes.  Operators map beliefs
   to sets of beliefs (more than one where an interval straddles a threshold).

   Parameters p of a method: fam "rk"/"esdirk", q1 (order of the error estimate + 1), k1, k2, al (hundredths: kb1, kb2,
   alpha), sf (safety), mx (initial maximum factor), tiny (error below which the estimate is noise).               *)
EXTENDS Integers, FiniteSets, Sequences

U    == 16384
MinF == -38043                    \* log2(0.2)
Four == 2 * U
INF  == 600 * U

Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Iv(x) == <<x, x>>
Add(i, j) == <<i[1] + j[1], i[2] + j[2]>>
Sub(i, j) == <<i[1] - j[2], i[2] - j[1]>>
Clamp(i, lo, hi) == <<Mn(hi, Mx(lo, i[1])), Mn(hi, Mx(lo, i[2]))>>
(* i * n / d, outward rounded; n may be negative, d > 0 *)
Scale(i, n, d) == IF n >= 0 THEN <<(i[1] * n) \div d, -((-(i[2] * n)) \div d)>>
                            ELSE <<(i[2] * n) \div d, -((-(i[1] * n)) \div d)>>

MaxF(p, red) == IF red THEN Four ELSE p.mx

(* first order factor: safety * err^(-1/(q+1)) *)
First(p, e) == Add(Iv(p.sf), Scale(e, -1, p.q1))
(* second order factor: safety^(k1+k2) * err^(-k1/(q+1)) * errold^(-k2/(q+1)) * (h/hold)^(-alpha) *)
Second(p, e, eo, hr) ==
    Add(Add(Scale(Iv(p.sf), p.k1 + p.k2, 100), Scale(e, -p.k1, 100 * p.q1)),
        Add(Scale(eo, -p.k2, 100 * p.q1), Scale(hr, -p.al, 100)))

CapRej(f, rej) == IF rej THEN <<Mn(0, f[1]), Mn(0, f[2])>> ELSE f

Reduced(red, f) == IF red THEN {TRUE}
                   ELSE (IF f[1] < Four THEN {TRUE} ELSE {}) \cup (IF f[2] >= Four THEN {FALSE} ELSE {})

(* the branches (factor, std afterwards) the controller may take after an accepted attempt with error e *)
AcceptBranches(p, b, e, eo, hr, rej) ==
    LET en == <<Mx(e[1], p.tiny), Mx(e[2], p.tiny)>>
        tinyB == IF e[1] < p.tiny THEN {<<Iv(MaxF(p, b.red)), TRUE>>} ELSE {}
        norm == IF e[2] < p.tiny THEN {}
                ELSE IF p.fam = "rk"
                THEN IF b.std THEN {<<First(p, en), FALSE>>}
                              ELSE {<<Clamp(Second(p, en, eo, hr), MinF, MaxF(p, b.red)), FALSE>>}
                ELSE IF b.std THEN {<<Clamp(First(p, en), -INF, MaxF(p, b.red)), ~b.red>>}
                              ELSE {<<Clamp(Second(p, en, eo, hr), MinF, MaxF(p, b.red)), FALSE>>}
    IN tinyB \cup norm

(* after an accepted attempt of size h: error e, error eo and size ratio hr with respect to the previous accepted step,
   rej: the step needed retries *)
Accepted(p, b, h, e, eo, hr, rej) ==
    UNION {LET f == CapRej(br[1], rej) IN
           {[std |-> br[2] \/ (p.fam = "esdirk" /\ rej), red |-> r, h |-> Add(h, f)] : r \in Reduced(b.red, f)}
           : br \in AcceptBranches(p, b, e, eo, hr, rej)}

(* after an attempt of size h rejected by an error (estimate) e *)
Rejected(p, b, h, e) ==
    LET f == Clamp(First(p, e), MinF, INF) IN
    {[std |-> IF p.fam = "esdirk" THEN TRUE ELSE b.std, red |-> r, h |-> Add(h, f)]
     : r \in IF p.fam = "esdirk" THEN Reduced(b.red, f) ELSE {b.red}}

(* ESDIRK, after a failed Newton iteration with a fresh Jacobian: the step is reduced by a factor in [1/5, 1/2] *)
NewtonReduced(p, b, h) == {[std |-> TRUE, red |-> b.red, h |-> <<h[1] + MinF, h[2] - U>>]}

(* before the first attempt of a step: apply the limits mn (interval) and mx, then the rules near the end, with d the
   remaining interval.  tl: how far apart two logarithms must be to be safely ordered. *)
ClipBranches(b, mn, mx, tl) ==
    (IF b.h[1] < mn[2] + tl THEN {[b EXCEPT !.h = Clamp(mn, -INF, mx), !.std = TRUE]} ELSE {})
    \cup (IF b.h[2] > mx - tl THEN {[b EXCEPT !.h = Iv(mx), !.std = TRUE]} ELSE {})
    \cup (IF b.h[2] >= mn[1] - tl /\ b.h[1] <= mx + tl
          THEN {[b EXCEPT !.h = <<Mn(b.h[1], mx), Mn(b.h[2], mx)>>]} ELSE {})

EndRk(b, mn, d, tl) ==
    (IF d >= b.h[1] + U - tl THEN {[b EXCEPT !.h = <<b.h[1], Mn(b.h[2], d)>>]} ELSE {})
    \cup (IF d < b.h[2] + U + tl /\ d > b.h[1] - tl
          THEN {[b EXCEPT !.h = <<Mx(d - U, mn[1]), Mx(d - U, mn[2])>>, !.std = TRUE]} ELSE {})
    \cup (IF d <= b.h[2] + tl THEN {[b EXCEPT !.h = Iv(d)]} ELSE {})

OnePct == 238                     \* log2(1.01); 1/1.01 > 0.99 = 1 - 237.6
EndEsdirk(b, mx, d, tl) ==
    (IF d < b.h[2] + tl \/ (d <= b.h[2] + OnePct + tl /\ d <= mx + tl) THEN {[b EXCEPT !.h = Iv(d)]} ELSE {})
    \cup (IF (d > b.h[1] + OnePct - tl - 2) \/ (d > mx - tl /\ d >= b.h[1] - tl) THEN {b} ELSE {})
    (* what would remain is of the size of rounding: two halves instead *)
    \cup (IF d >= b.h[1] - tl /\ d <= b.h[2] + tl THEN {[b EXCEPT !.h = Iv(d - U), !.std = TRUE]} ELSE {})

Reassessed(p, b, mn, mx, d, tl) ==
    UNION {IF p.fam = "rk" THEN EndRk(x, mn, d, tl) ELSE EndEsdirk(x, mx, d, tl) : x \in ClipBranches(b, mn, mx, tl)}

(* beliefs consistent with an observed step size o (interval), with tolerance tl *)
Matches(B, o, tl) == {b \in B : b.h[1] <= o[2] + tl /\ b.h[2] >= o[1] - tl}
Narrow(B, o) == {[b EXCEPT !.h = o] : b \in B}
=============================================================================
