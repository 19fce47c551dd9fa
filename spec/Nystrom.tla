------------------------------ MODULE Nystrom ------------------------------
(* Which problems the Nystrom solvers take.  A problem [v, a] = f(t, [x, v]) is described by
     odd      the number of states is odd
     first    what the first half of f is: "v" (as it should be), "x", "twice" (2 v), "minus" (-v), "plus" (v + 1),
              "last" (v, but for its last component), "swapped" ([a, v] instead of [v, a])
     accel    what the acceleration depends on: "pos" (x and t), "vlin" (also v, linearly), "vquad" (v^2), "const"
     start    "generic", "equal" (x = v # 0), "zeros" (x = v = 0), "rest" (v = 0 # x), "origin" (x = 0 # v)
     form     how f returns its value and y0 is given: "array", "list", "tuple", "vectorized", "complex", "ints"
   The solver sees f at the start, and (when x = v, or if it cannot take velocities) at a slightly different velocity.    *)
EXTENDS Integers, FiniteSets, Sequences
Strict == {"MR6NN"}
Methods == {"Fi4N", "Fi5N", "Mu5Nmb", "MR6NN"}
Firsts == {"v", "x", "twice", "minus", "plus", "last", "swapped"}
Accels == {"pos", "vlin", "vquad", "const"}
StartsN == {"generic", "equal", "zeros", "rest", "origin"}
Forms == {"array", "list", "tuple", "vectorized", "complex", "ints"}

AtRest(p) == p.start \in {"zeros", "rest"}
Same(p) == p.start \in {"zeros", "equal"}
(* f[:n] = v at the start in spite of the wrong structure *)
Hidden(p) == CASE p.first = "v" -> TRUE
               [] p.first = "x" -> Same(p)
               [] p.first \in {"twice", "minus", "last"} -> AtRest(p)
               [] OTHER -> FALSE
(* where the position equals the velocity, f is looked at again with another velocity *)
Structure(p) == p.first = "v" \/ (Hidden(p) /\ ~Same(p))
Refused(m, p) == p.odd \/ ~Structure(p) \/ (m \in Strict /\ p.accel \in {"vlin", "vquad"})

(* combinations whose fate is not decided by the above: the acceleration hides a quadratic dependence on a velocity that is
   zero; a wrong first half that is right at the start (nothing could be told) *)
Sane(p) == /\ (p.odd => p.first = "v" /\ p.accel = "pos")
           /\ (p.accel = "vquad" => ~AtRest(p))
           /\ (p.first # "v" => ~(Hidden(p) /\ ~Same(p)))
           /\ (p.first # "v" => p.accel = "pos" /\ p.form \in {"array", "list"})
           /\ (p.form = "ints" => p.start \in {"zeros", "rest", "origin", "generic"})
Problems == {p \in [odd : BOOLEAN, first : Firsts, accel : Accels, start : StartsN, form : Forms] : Sane(p)}

(* the construction as a machine: what is looked at, in which order *)
Begin == [at |-> "size", evals |-> 1]
Succ(m, p, s) ==
    CASE s.at = "size" -> IF p.odd THEN [s EXCEPT !.at = "refused"] ELSE [s EXCEPT !.at = "first"]
      [] s.at = "first" -> IF ~Hidden(p) THEN [s EXCEPT !.at = "refused"]
                           ELSE IF Same(p) THEN [s EXCEPT !.at = "again", !.evals = @ + 1] ELSE [s EXCEPT !.at = "velocity"]
      [] s.at = "again" -> IF p.first = "v" THEN [s EXCEPT !.at = "velocity"] ELSE [s EXCEPT !.at = "refused"]
      [] s.at = "velocity" -> IF m \in Strict
                              THEN IF p.accel \in {"vlin", "vquad"} THEN [s EXCEPT !.at = "refused", !.evals = @ + 1]
                                   ELSE [s EXCEPT !.at = "accepted", !.evals = @ + 1]
                              ELSE [s EXCEPT !.at = "accepted"]
      [] OTHER -> s
=============================================================================
