------------------------------- MODULE Order -------------------------------
(* Orders.  e: a sequence of logarithms (2^-14 octaves) of the error of a single step of size h, h/2, h/4, ..., NONE where it has
   drowned in rounding.  The error behaves like h^q once h is small, so the finest levels are judged.  For a whole integration the
   sequence is over tolerances, each 1/10 of the one before.                                                                *)
EXTENDS Integers, Sequences
NONE == -999999999
Oct == 16384

(* the exponent q of the error of a step, one more than the order; of the dense output inside the step *)
StepQ(m) == CASE m \in {"BS5", "Ts5", "CK5", "CKdisc", "Fi5N", "Mu5Nmb"} -> 6
              [] m \in {"Pr7", "CFMR7osc"} -> 8 [] m = "Pr8" -> 9 [] m = "Pr9" -> 10
              [] m \in {"Me4", "Fi4N", "KC4I", "KC4Ia"} -> 5 [] m = "MR6NN" -> 7
              [] m \in {"KC3I", "Kv3I"} -> 4 [] m \in {"TRBDF2", "TRX2", "SSV2stab"} -> 3
DenseQ(m, it) == CASE m = "BS5" -> (IF it = "free" THEN 5 ELSE 6)
                   [] m = "Fi5N" -> (IF it \in {"1", "2"} THEN 6 ELSE 5)
                   [] m \in {"Ts5", "CK5", "CKdisc", "Fi4N", "Mu5Nmb", "KC4I", "KC4Ia"} -> 5
                   [] m = "Pr7" -> 7 [] m \in {"Pr8", "Pr9"} -> 7 [] m \in {"CFMR7osc", "MR6NN"} -> 6
                   [] m \in {"Me4", "KC3I", "Kv3I"} -> 4 [] m \in {"TRBDF2", "TRX2", "SSV2stab"} -> 3
(* order of the error with the tolerance, in hundredths: order of the solution over exponent of the estimate *)
TolQ(m) == IF m \in {"TRBDF2", "TRX2", "SSV2stab"} THEN 66 ELSE 100

Valid(e) == {i \in DOMAIN e : \A j \in 1 .. i : e[j] # NONE}
Count(e) == IF Valid(e) = {} THEN 0 ELSE CHOOSE i \in Valid(e) : \A j \in Valid(e) : j <= i
(* two octaves are looked at together, or one if there is no more.  At some place the order must be seen; the finest levels, where
   terms that should not be there would show, may fall short of it by a quarter (where two terms cancel at one level, three octaves
   show it).  High orders are approached slowly.                                                                             *)
Fall(e, i, k) == (e[i] - e[i + k])*100
Order(e, q) == LET n == Count(e)
                   k == IF n >= 3 THEN 2 ELSE 1
                   s == (IF k = 1 THEN 30 ELSE 0) + (IF q >= 8 THEN 40 ELSE 0)
               IN  n >= 2 => /\ \E i \in 1 .. n - k : Fall(e, i, k) >= (100*q - 60 - s)*k*Oct
                             /\ \/ Fall(e, n - k, k) >= (75*q - s)*k*Oct
                                \/ n >= 4 /\ Fall(e, n - 3, 3) >= (75*q - s)*3*Oct
Judged(e) == Count(e) >= 2
(* over all tolerances t (10-fold: 54427 units), unless the error is below 30 times the smallest tolerance anyhow *)
Proportional(e, t, q100) == LET n == Count(e) IN (n >= 3 /\ e[n] > t[n] + 5*Oct) => (e[1] - e[n]) \div 10 >= (((q100*(n - 1)*5442) \div 100)*6) \div 10
=============================================================================
