--------------------------- MODULE MCController ---------------------------
(* Exhaustive exploration of the step loop around Controller.tla with exact (zero-width) errors taken from a finite set
   of classes: every sequence of at most MaxAtt attempt outcomes.  Checks the design (limits of the factors, no growth
   after a rejection, monotone reduction of the maximum factor, the limits near max_step and the end) and writes out every
   sequence as a script for replay on the real solvers.                                                            *)
EXTENDS Controller, TLC, IOUtils

CONSTANTS MaxAtt, Fam, Q1, K1, K2n, Aln, Emit, HasPre

(* classes of attempt outcomes and the logarithm of their error *)
Err == [T |-> -519 * U, S |-> -380000, M |-> -54427, N |-> -5274, R |-> 9584, L |-> 108852, H |-> 489835,
        P |-> 32768, X |-> 0]
Classes == (DOMAIN Err) \ (IF HasPre THEN {} ELSE {"P"})
P == [fam |-> Fam, q1 |-> Q1, k1 |-> K1, k2 |-> -K2n, al |-> -Aln, sf |-> -2490, mx |-> 54427, tiny |-> -8380416]

VARIABLES b,        \* belief (exact)
          eo, hp,   \* error and size of the previous accepted step
          rej,      \* the current step has been rejected already
          t,        \* distance to the end, log; INF when far
          hist,     \* classes so far
          last      \* [h, f, acc] of the last attempt
vars == <<b, eo, hp, rej, t, hist, last>>

Dead == Len(hist) > 0 /\ hist[Len(hist)] = "X"
Ends == {INF \div 2, 20000, 3000}       \* remaining interval at the start, relative to the first step (log)
Mxs  == {INF, 16384}                    \* max_step
VARIABLE mxs

Init == /\ b = [std |-> TRUE, red |-> FALSE, h |-> Iv(0)]
        /\ eo = Iv(0) /\ hp = Iv(0) /\ rej = FALSE
        /\ t = INF \div 2
        /\ mxs \in Mxs
        /\ hist = <<>>
        /\ last = [h |-> 0, prop |-> 0, acc |-> TRUE, rejb |-> FALSE, lim |-> FALSE, red |-> FALSE]

(* the size of the attempt about to be made; far from the end only the limits matter *)
Cands == IF rej THEN {b} ELSE Reassessed(P, b, Iv(-INF), mxs, t, 0)

Attempt(c) ==
    LET e == Iv(Err[c]) IN
    \E x \in Cands :
      LET h == x.h IN
      /\ Len(hist) < MaxAtt /\ ~Dead
      /\ hist' = Append(hist, c)
      /\ UNCHANGED <<t, mxs>>
      /\ IF c = "X" THEN UNCHANGED <<b, eo, hp, rej, last>>     \* not a number: the step fails for good
         ELSE IF Err[c] < 0
         THEN /\ b' \in Accepted(P, x, h, e, eo, Sub(h, hp), rej)
              /\ eo' = e /\ hp' = h /\ rej' = FALSE
              /\ last' = [h |-> h[1], prop |-> b'.h[2], acc |-> TRUE, rejb |-> rej,
                           lim |-> Fam = "esdirk" \/ ~x.std \/ Err[c] < P.tiny, red |-> x.red]
         ELSE /\ b' \in Rejected(P, x, h, e)
              /\ rej' = TRUE /\ UNCHANGED <<eo, hp>>
              /\ last' = [h |-> h[1], prop |-> b'.h[2], acc |-> FALSE, rejb |-> rej, lim |-> TRUE, red |-> x.red]

Next == \E c \in Classes : Attempt(c)

Emitted == IF Emit /\ (Len(hist) = MaxAtt \/ Dead) THEN PrintT("SCRIPT " \o ToString(mxs # INF) \o " " \o ToString(hist)) ELSE TRUE

Started == Len(hist) > 0
(* the first order rule of the explicit methods has no upper limit (deliberate: start-up and after a limit) *)
FactorLimits == Started => /\ (last.lim \/ ~last.acc => last.prop - last.h <= P.mx + 200)
                           /\ last.prop - last.h >= MinF - 200
ReducedLimit == (Started /\ last.red /\ last.acc /\ last.lim) => last.prop - last.h <= Four + 200
NoGrowthAfterRejection == (Started /\ last.rejb /\ last.acc) => last.prop <= last.h + 200
RejectionShrinks == (Started /\ ~last.acc) => last.prop < last.h
WithinMax == Started => last.h <= mxs
NonEmpty == Cands # {}
MonotoneReduced == [][b.red => b'.red]_vars
=============================================================================
