-------------------------------- MODULE MCCK --------------------------------
(* Exhaustive exploration of the CKdisc strategy: every sequence of at most MaxAtt attempts, each with error estimates
   from a finite set of classes.  Checks the design and writes the sequences as scripts for replay on the real solver. *)
EXTENDS CKControl, TLC

CONSTANTS MaxAtt, Emit, Wide

(* classes of an estimate E (already a root): tiny, below one, just above one, beyond the initial threshold *)
V == [S |-> -200000, N |-> -4000, R |-> 3000, G |-> 60000, Q |-> 115000, H |-> 150000]
C1 == IF Wide THEN {"S", "N", "R", "G", "Q", "H"} ELSE {"N", "R", "Q", "H"}
C2 == C1
C4 == IF Wide THEN {"S", "N", "R", "G"} ELSE {"S", "N", "R"}
CF == {"N", "R"}

VARIABLES b, rej, hist, last
vars == <<b, rej, hist, last>>
Init == b = CKStart /\ rej = FALSE /\ hist = <<>> /\ last = [out |-> "none", f |-> 0, rej |-> FALSE, n |-> 0]

A(n, c1, c2, c4, c2f, c3f) ==
    [n |-> n, n1 |-> Iv(2 * V[c1]), n2 |-> Iv(3 * V[c2]), n4 |-> Iv(5 * V[c4]), f2 |-> Iv(V[c2f]), f3 |-> Iv(V[c3f]),
     x1 |-> FALSE, x2 |-> FALSE, x4 |-> FALSE, y2 |-> FALSE, y3 |-> FALSE]

Attempt(n, c1, c2, c4, c2f, c3f) ==
    LET a == A(n, c1, c2, c4, c2f, c3f) IN
    /\ Len(hist) < MaxAtt
    /\ n \in CKStages(b, a, 0)
    /\ \E out \in CKOutcomes(b, a, 0) :
         /\ b' = After(b, a, out)
         /\ rej' = (out \in {"rej", "rough"})
         /\ last' = [out |-> out, f |-> Factor(b, a, out, rej)[2], rej |-> rej, n |-> n]
         /\ hist' = Append(hist, IF n = 1 THEN c1 ELSE IF n = 3 THEN c1 \o c2 ELSE c1 \o c2 \o c4 \o c3f)

(* the fallback estimates matter only where they are asked for *)
Next == \E c1 \in C1, c2 \in C2, c4 \in C4, f2 \in IF Wide THEN CF ELSE {"N"}, f3 \in CF :
          \/ c2 = "N" /\ c4 = "N" /\ f2 = "N" /\ f3 = "N" /\ Attempt(1, c1, c2, c4, f2, f3)
          \/ c4 = "N" /\ f3 = "N" /\ (V[c1] < 0 \/ f2 = "N") /\ Attempt(3, c1, c2, c4, f2, f3)
          \/ /\ ((V[c2] < 0 /\ V[c4] > 0) \/ f3 = "N")
             /\ ((V[c1] < 0 /\ V[c4] > 0 /\ (V[c2] > 0 \/ f3 = "R")) \/ f2 = "N")
             /\ Attempt(5, c1, c2, c4, f2, f3)

Emitted == IF Emit /\ Len(hist) = MaxAtt THEN PrintT("SCRIPT " \o ToString(hist)) ELSE TRUE

QuitBounds == \A k \in 1 .. 2 : b.q[k][1] >= 0 /\ b.q[k][2] <= LQmax /\ b.q[k][1] = b.q[k][2]
TwiddleBounds == \A k \in 1 .. 2 : b.w[k][1] >= 2253 /\ b.w[k][2] <= LTw[k]
RetryShrinks == last.out \in {"rej", "rough"} => last.f < 0
Bounded == last.out # "none" => last.f <= LFive
NoGrowthAfterRejection == (last.out = "acc5" /\ last.rej) => last.f <= 0
FallbackFromFull == last.out = "acc3" => last.n = 5
(* the thresholds change by a completed attempt only, quit factors by an accepted and twiddles by a failed one *)
OnlyCompleted == [][(b'.q # b.q => last'.out = "acc5") /\ (b'.w # b.w => last'.n = 5 /\ last'.out # "acc5")]_vars
TwiddleMonotone == [][\A k \in 1 .. 2 : b'.w[k][2] <= b.w[k][2]]_vars
(* there is always a possible continuation *)
Total == \A c1 \in C1, c2 \in C2, c4 \in C4, c3f \in CF :
           LET a == A(5, c1, c2, c4, "N", c3f)
               S == CKStages(b, a, 0) IN Cardinality(S) = 1 /\ \A n \in S : Cardinality(CKOutcomes(b, [a EXCEPT !.n = n], 0)) = 1
NoHist == <<b, rej, last, Len(hist)>>
=============================================================================
