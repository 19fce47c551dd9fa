------------------------------- MODULE MCOrder -------------------------------
(* Error ladders of a method of order q - 1 whose error has terms h^q and h^(q+1), with rounding, and of one with a term h^r, r < 3q/4,
   that should not be there: the first is passed, the second is noticed unless the term is below the others on all levels.  Errors are
   added as the larger of the two (which is what logs of sums are to within an octave where they are equal).                       *)
EXTENDS Order, FiniteSets, TLC
VARIABLES q, c0, c1, r, cr, fl, e
vars == <<q, c0, c1, r, cr, fl, e>>
Levels == 9
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* log2(2^a + 2^b) in units, by the table of log2(1 + 2^-d) at whole octaves, linear between them
Tab == <<16384, 9584, 5274, 2785, 1433, 727, 366, 184, 92, 46, 23>>
Lse(a, b) == LET d == IF a > b THEN a - b ELSE b - a
                 k == d \div Oct
                 m == IF a > b THEN a ELSE b
             IN  IF k >= 10 THEN m ELSE m + Tab[k + 1] + ((Tab[k + 2] - Tab[k + 1])*((d % Oct) \div 64)) \div 256
Err(k, p, c) == (c - p*k)*Oct
Ladder(Q, C0, C1, R, CR, FL) == [k \in 1 .. Levels |-> LET a == Lse(Err(k, Q, C0), Err(k, Q + 1, C1))
                                                           b == IF R = 0 THEN a ELSE Lse(a, Err(k, R, CR))
                                                       IN  IF b < FL*Oct THEN NONE ELSE b]
Init == /\ q \in 3 .. 10 /\ c0 \in {-12, -6, 0} /\ c1 \in -6 .. 6 /\ c1 - c0 <= 3 /\ r = 0 /\ cr = 0 /\ fl = -43
        /\ e = Ladder(q, c0, c1, r, cr, fl)
Spoil == /\ r = 0 /\ r' \in {x \in 1 .. q - 1 : 100*x < 75*q - (IF q >= 8 THEN 40 ELSE 0)} /\ cr' \in {-30, -20, -10, -3, 0}
         /\ e' = Ladder(q, c0, c1, r', cr', fl) /\ UNCHANGED <<q, c0, c1, fl>>
Spec == Init /\ [][Spoil]_vars
Passes == r = 0 => Order(e, q)
(* the spurious term is twice all else, over the levels judged: noticed *)
nv == Count(e)
Dominates == nv >= 4 /\ r # 0 /\ \A k \in nv - 3 .. nv : Err(k, r, cr) >= Lse(Err(k, q, c0), Err(k, q + 1, c1)) + Oct
Noticed == Dominates => ~Order(e, q)
=============================================================================
