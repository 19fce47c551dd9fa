---------------------------- MODULE SwagControl ----------------------------
(* Order and step size selection of SWAG (the STEP code of Shampine & Gordon), as operators on intervals of fixed-point
   base-2 logarithms (see Controller).  A belief: k - order of the next attempt, h - its size before the limits, ph - still in
   the first phase, ns - number of steps of equal size so far (capped), kold - order of the last step, kp - h equals the
   last step size, am - the last step had the largest size.
   Data of an attempt: S[i] = |h| gstr(i-1) sig(i) |phi(i)| (the error at order i-1 as for constant steps), err[k] the
   error estimate at order k, R[k] the estimate at order k+1 after the step; nan/inf: they are not finite.           *)
EXTENDS Controller

Half == -U
Nine == -2490                              \* log2(0.9)

(* possible truth values of x < y *)
Lt(x, y, tl) == (IF x[1] < y[2] + tl THEN {TRUE} ELSE {}) \cup (IF x[2] >= y[1] - tl THEN {FALSE} ELSE {})
IMax(i, j) == <<Mx(i[1], j[1]), Mx(i[2], j[2])>>
IMin(i, j) == <<Mn(i[1], j[1]), Mn(i[2], j[2])>>
Shift(i, n) == <<i[1] + n, i[2] + n>>

SwagStart(h0) == [k |-> 1, h |-> h0, ph |-> TRUE, ns |-> 0, kold |-> 0, kp |-> FALSE, am |-> FALSE]

(* number of equal steps at the beginning of an attempt: kept says that the size is that of the last accepted step *)
NsOf(b, kept) == LET n == IF kept THEN b.ns ELSE 0 IN IF n <= b.kold THEN n + 1 ELSE n

(* order proposed by the error estimates of the attempt *)
KNew(b, a, tl) ==
    IF a.nan \/ a.inf THEN {b.k}
    ELSE IF b.k > 2 THEN {IF x THEN b.k - 1 ELSE b.k : x \in Lt(IMax(a.S[b.k], a.S[b.k - 1]), a.S[b.k + 1], tl)}
    ELSE IF b.k = 2 THEN {IF x THEN 1 ELSE 2 : x \in Lt(a.S[2], Shift(a.S[3], Half), tl)}
    ELSE {1}

(* after failure number n of a step, h the size of the attempt *)
SwagFailed(b, a, h, n, tl) ==
    UNION {LET k2 == IF n >= 3 THEN 1 ELSE kn
               opt == IF n < 4 \/ a.nan THEN {FALSE} ELSE IF a.inf THEN {TRUE, FALSE}
                      ELSE Lt(Iv(Half), Shift(a.S[b.k + 1], -2 * U), tl)
           IN {[b EXCEPT !.k = k2, !.ph = FALSE, !.ns = 0, !.kp = FALSE,
                         !.h = IF ~o THEN Shift(h, Half) ELSE IF a.inf THEN <<-INF, -INF>>
                               ELSE Add(h, Scale(Sub(Iv(Half), a.S[b.k + 1]), 1, 2))] : o \in opt}
           : kn \in KNew(b, a, tl)}

(* after success: ns counts the step just taken; candidates for order, error at this order, first phase *)
Choice(b, a, kmax, ns, tl) ==
    UNION {LET low == kn = b.k - 1
               ph == b.ph /\ ~low /\ b.k # kmax
               erk == a.S[b.k + 1]
               erkp == a.R[b.k]
               keep == [k |-> b.k, er |-> erk, ph |-> FALSE]
               raise == [k |-> b.k + 1, er |-> erkp, ph |-> FALSE]
               lower == [k |-> b.k - 1, er |-> a.S[b.k], ph |-> FALSE]
           IN IF ph THEN {[k |-> b.k + 1, er |-> Iv(-INF), ph |-> TRUE]}
              ELSE IF low THEN {lower}
              ELSE IF b.k >= ns THEN {keep}
              ELSE IF b.k = 1
              THEN {IF x THEN raise ELSE keep : x \in IF kmax = 1 THEN {FALSE} ELSE Lt(erkp, Shift(erk, Half), tl)}
              ELSE UNION {IF ~x THEN {lower}
                          ELSE IF b.k = kmax THEN {keep}
                          ELSE {IF z THEN keep ELSE raise : z \in Lt(erk, erkp, tl)}
                          : x \in Lt(IMin(erk, erkp), a.S[b.k], tl)}
           : kn \in KNew(b, a, tl)}

(* step size for the order chosen *)
NextH(c, h, mn, tl) ==
    IF c.ph THEN {[h |-> Shift(h, U), kp |-> FALSE]}
    ELSE (IF c.er[1] + (c.k + 1) * U <= Half + tl THEN {[h |-> Shift(h, U), kp |-> FALSE]} ELSE {})
         \cup (IF c.er[2] + (c.k + 1) * U >= Half - tl
               THEN (IF c.er[1] <= Half + tl THEN {[h |-> h, kp |-> TRUE]} ELSE {})
                    \cup (IF c.er[2] >= Half - tl
                          THEN {[h |-> IMax(Add(h, Clamp(Scale(Sub(Iv(Half), c.er), 1, c.k + 1), Half, Nine)), mn),
                                 kp |-> FALSE]}
                          ELSE {})
               ELSE {})

SwagAccepted(b, a, h, kmax, ns, atmax, mn, tl) ==
    UNION {{[k |-> c.k, h |-> n.h, ph |-> c.ph, ns |-> ns, kold |-> b.k, kp |-> n.kp, am |-> atmax]
            : n \in NextH(c, h, mn, tl)} : c \in Choice(b, a, kmax, ns, tl)}

(* the limits at the beginning of a step: not over t_bound, then max_step; kept: equal to the last accepted size *)
SwagLimited(b, mx, d, tl) ==
    (IF b.h[1] <= Mn(d, mx) + tl THEN {[h |-> <<b.h[1], Mn(b.h[2], Mn(d, mx))>>, kept |-> b.kp, am |-> FALSE]} ELSE {})
    \cup (IF d <= mx + tl /\ b.h[2] >= d - tl THEN {[h |-> Iv(Mn(d, mx)), kept |-> FALSE, am |-> FALSE]} ELSE {})
    \cup (IF b.h[2] >= mx - tl /\ d >= mx - tl THEN {[h |-> Iv(mx), kept |-> b.am, am |-> TRUE]} ELSE {})
=============================================================================
