-------------------------------- MODULE MCRkc --------------------------------
(* The spectral radius policy of SSV2stab: every sequence of accepted and rejected attempts.  age counts the accepted
   steps since the estimate in use was made; pt tells whether it was made at the present point; est counts estimates. *)
EXTENDS RkcControl, TLC
CONSTANTS Const, User, Max
VARIABLES b, age, pt, rej, est, lim
vars == <<b, age, pt, rej, est, lim>>
Init == b = RkcStart /\ age = -1 /\ pt = FALSE /\ rej = FALSE /\ est = 0 /\ lim = FALSE

Attempt(ok, l) ==
    LET e == Attempted(Estimated(b), l)
        a == IF b.new THEN 0 ELSE age
        p == b.new \/ pt IN
    /\ est' = (IF b.new THEN (IF est < 2 THEN est + 1 ELSE 2) ELSE est)
    /\ lim' = l
    /\ IF ok THEN b' = RkcAccepted(e, Const, User) /\ age' = a + 1 /\ pt' = FALSE /\ rej' = FALSE
             ELSE b' = RkcRejected(e) /\ age' = a /\ pt' = p /\ rej' = TRUE
Next == b.ml < Max /\ \E ok, l \in BOOLEAN : Attempt(ok, l)

View == <<b, IF Const THEN Mn(age, 2) ELSE age, pt, rej, est, lim>>
AgeBound == ~Const => (IF b.new THEN age <= 25 ELSE age < 25)
ConstOnce == Const => est <= 1
FreshAfterRejection == rej => (Const \/ pt \/ b.new)
NeverTwiceAtPoint == b.new => ~pt
UserEachStep == (User /\ ~Const /\ ~rej) => b.new
MlCount == lim = (b.ml > 0)
=============================================================================
