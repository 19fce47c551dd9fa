-------------------------------- MODULE Dae --------------------------------
(* What the ESDIRK solvers do with M y' = f(t, y) before the first step: the mass matrix is analysed, the index is checked,
   the algebraic variables are made consistent and the initial slope is found.  A problem is described by
     form    how M is given: "none", "vec" (diagonal), "list", "mat", "mat2" (diagonal as matrix), "csr", "csc", "coo",
             or badly: "short", "long", "oblong", "ndim", "number", "shortcsr"
     nae     number of algebraic equations (rank deficiency of M)
     index   1 or 2
     start   "exact" (consistent), "near" (off by much less than the tolerance), "off" (off by more than the tolerance, the
             residual being small or large), "hopeless" (no consistent value exists)
     units   "one", "small", "large": the units of the algebraic equations; they must not matter.                        *)
EXTENDS Integers, FiniteSets, Sequences

GoodForms == {"none", "vec", "list", "mat", "mat2", "csr", "csc", "coo"}
BadForms == {"short", "long", "oblong", "ndim", "number", "shortcsr"}
DiagonalForms == {"vec", "list", "mat2"}
Starts == {"exact", "near", "off", "hopeless"}
Unit == {"one", "small", "large"}

Sane(p) == /\ (p.form = "none" => p.nae = 0)
           /\ (p.nae = 0 => p.index = 1 /\ p.start = "exact" /\ p.units = "one")
           /\ (p.form \in BadForms => p.index = 1 /\ p.start = "exact" /\ p.units = "one" /\ p.nae = 0)
           /\ (p.index = 2 => p.start = "exact")
           /\ (p.start = "hopeless" => p.units # "small" /\ p.nae = 1)

(* the decision that the transitions below must come to *)
Verdict(p) == IF p.form \in BadForms THEN "ValueError"
              ELSE IF p.nae > 0 /\ p.index > 1 THEN "ValueError"
              ELSE IF p.nae > 0 /\ p.start = "hopeless" THEN "ValueError"
              ELSE "accepted"
Warns(p) == p.nae > 0 /\ p.index = 1 /\ p.start = "off" /\ p.form \in GoodForms

(* the state machine: where the solver is, which components it changed, whether it warned *)
Begin(p) == [at |-> "shape", moved |-> {}, warned |-> FALSE, slope |-> FALSE, consistent |-> p.start = "exact"]
Succ(p, s) ==
    CASE s.at = "shape" -> IF p.form \in BadForms THEN {[s EXCEPT !.at = "refused"]} ELSE {[s EXCEPT !.at = "analyse"]}
      [] s.at = "analyse" -> IF p.nae = 0 THEN {[s EXCEPT !.at = "slope", !.consistent = TRUE]} ELSE {[s EXCEPT !.at = "index"]}
      [] s.at = "index" -> IF p.index > 1 THEN {[s EXCEPT !.at = "refused"]} ELSE {[s EXCEPT !.at = "test"]}
      (* a deviation below the tolerance may be left or corrected *)
      [] s.at = "test" -> (IF p.start \in {"exact", "near"} THEN {[s EXCEPT !.at = "slope"]} ELSE {})
                          \cup (IF p.start # "exact" THEN {[s EXCEPT !.at = "solve"]} ELSE {})
      [] s.at = "solve" -> IF p.start = "hopeless" THEN {[s EXCEPT !.at = "refused"]}
                           ELSE {[s EXCEPT !.at = "slope", !.moved = {"algebraic"}, !.consistent = TRUE, !.warned = p.start = "off"]}
      [] s.at = "slope" -> {[s EXCEPT !.at = "run", !.slope = TRUE]}
      [] OTHER -> {}
=============================================================================
