------------------------------ MODULE MCHStart ------------------------------
(* All first steps on a grid of magnitudes; the transitions change one thing about the problem. *)
EXTENDS HStart, TLC
Dx == {-20, 0, 3, 30}
Lc == {-30, -3, 0, 2, 40}
Ly == {-20, 0, 20}
Em == {-40, -20, -3}
As == {99, -10, 0, 20}
Ords == {1, 2, 4, 8}
VARIABLES rkc, fam, p, h, last, hl
vars == <<rkc, fam, p, h, last, hl>>
Fams == {"zero", "const", "ramp", "linear", "rest"}
MCDx == {o*Oct : o \in Dx}
Q == [lc : {o*Oct : o \in Lc}, ly : {o*Oct : o \in Ly}, dx : MCDx, em : {o*Oct : o \in Em}, el : {o*Oct : o \in Em}, a : {IF o = 99 THEN NONE ELSE o*Oct : o \in As},
      ord : Ords, jt : BOOLEAN]
Init == /\ rkc \in BOOLEAN /\ fam \in Fams /\ p \in Q /\ p.el <= p.em /\ (rkc => p.el = p.em /\ p.ord = 2) /\ h = First(rkc, fam, p) /\ last = "none" /\ hl = h
K == 2*Oct
Change(w, q) == /\ last = "none" /\ last' = w /\ p' = q /\ h' = First(rkc, fam, q) /\ hl' = h /\ UNCHANGED <<rkc, fam>>
Next == \/ Change("tighter", [p EXCEPT !.em = @ - K, !.el = @ - K])
        \/ Change("faster", [p EXCEPT !.lc = @ + K])
        \/ Change("longer", [p EXCEPT !.dx = @ + K])
        \/ Change("timescale", [p EXCEPT !.lc = @ + (IF fam = "ramp" THEN 2*K ELSE K), !.dx = @ - K, !.a = IF @ = NONE THEN NONE ELSE @ - K])
Spec == Init /\ [][Next]_vars
Bounded == h <= (IF rkc THEN p.dx ELSE Max(p.dx, Floor(p)))
Positive == h # NONE
Shrinks == last \in {"tighter", "faster"} => h <= hl
Longer == last = "longer" => h >= hl
Scaled == last = "timescale" => h = hl - K
AttemptOK == \A half \in BOOLEAN : LET b == Attempt(half, h, p.dx) IN b <= p.dx /\ (h <= p.dx => b >= Min(h - Oct, p.dx - Oct) /\ b <= Max(h, p.dx))
Lipschitz == (~rkc /\ Lip(fam, p) # NONE) => h <= Max(-p.lc, Floor(p))
=============================================================================
