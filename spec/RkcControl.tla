----------------------------- MODULE RkcControl -----------------------------
(* Spectral radius, stage number and step size policy of SSV2stab (the RKC code of Sommeijer, Shampine and Verwer), as
   operators on intervals of fixed-point base-2 logarithms (see Controller).  State b:
     new - the spectral radius has to be (re)estimated before the next attempt,  att - the estimate in use belongs to
     this point or a constant Jacobian,  ns - accepted steps modulo 25,  ml - attempts in a row limited by the largest
     number of stages.                                                                                               *)
EXTENDS Controller

L154 == 10205            \* log2(1.54)
L08  == -5274            \* log2(0.8)
L11  == 2253
LTen == 54427

RkcStart == [new |-> TRUE, att |-> FALSE, ns |-> 0, ml |-> 0]
Estimated(b) == IF b.new THEN [b EXCEPT !.att = TRUE] ELSE b
Attempted(b, limited) == [b EXCEPT !.ml = IF limited THEN @ + 1 ELSE 0]
RkcRejected(b) == [b EXCEPT !.new = ~b.att]
RkcAccepted(b, const, user) ==
    LET n == (b.ns + 1) % 25 IN
    [b EXCEPT !.att = const, !.ns = n, !.new = (user \/ n = 0) /\ ~const]

(* size of the next attempt *)
RetryH(h, e) == Add(Add(h, Iv(L08)), Scale(e, -1, 3))
FirstFac(e) == Clamp(Sub(Iv(L08), Scale(e, 1, 3)), -LTen, LTen)
NextFac(h, hold, e, eo) == Clamp(Sub(Add(Add(Iv(L08), h), Scale(eo, 1, 3)), Add(hold, Scale(e, 2, 3))), -LTen, LTen)

(* the size after the rules for the end of the interval and max_step *)
RkcLimited(h, mx, d, tl) ==
    (IF h[2] + L11 >= d - tl THEN {Iv(Mn(d, mx))} ELSE {})
    \cup (IF h[1] + L11 < d + tl THEN {<<Mn(h[1], mx), Mn(h[2], mx)>>} ELSE {})

(* automatic first step: the trial size, and the size from the curvature est seen there *)
TrialH(sp, mx, hm) == LET x == <<Mn(mx, -sp[2]), Mn(mx, -sp[1])>> IN <<Mx(x[1], hm[1]), Mx(x[2], hm[2])>>
InitH(h0, est, mx, hm, tl) ==
    LET x == Sub(Add(h0, Iv(-LTen)), Scale(est, 1, 2)) IN
    (IF x[1] < mx + tl THEN {<<Mx(x[1], hm[1]), Mx(x[2], hm[2])>>} ELSE {}) \cup (IF x[2] >= mx - tl THEN {Iv(mx)} ELSE {})

(* stability demand 1.54 h rho, to be compared with (m-1)^2 - 1 <= . < m^2 - 1 *)
Demand(h, sp) == Add(Add(Iv(L154), h), sp)
=============================================================================
