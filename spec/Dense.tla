------------------------------- MODULE Dense -------------------------------
(* Interpolants and observers.  A solver owns one working buffer, overwritten by every step; an interpolant is made on
   request from the buffer and the two nodes of the step.  Values are abstract: node i has value <<"y", i>> (or, when
   the method's interpolant replaces the end of the step, <<"r", i>> from then on).
     copy     whether an interpolant keeps its own data (it must)
     replace  the method has an interpolant that replaces the end position (Fi5N's interpolant 1)
   What must hold: every interpolant starts and ends at the nodes of its step, consecutive interpolants join, an
   interpolant never changes, and without replacement the nodes do not depend on the observations at all.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxSteps, Copy, Replace

VARIABLES node,     \* node values, node[i+1] is the value at the end of step i
          buf,      \* the step whose stages are in the buffer
          its,      \* interpolants made: [i |-> step, l, r |-> end values, of |-> step of the data it uses]
          seen      \* values read from interpolants: <<index, data>>
vars == <<node, buf, its, seen>>

Init == node = <<<<"y", 0>>>> /\ buf = 0 /\ its = <<>> /\ seen = {}

Advance == /\ Len(node) <= MaxSteps
           /\ node' = Append(node, <<"y", Len(node)>>)
           /\ buf' = Len(node)
           /\ its' = IF Copy THEN its ELSE [k \in DOMAIN its |-> [its[k] EXCEPT !.of = Len(node)]]
           /\ UNCHANGED seen

Observe == /\ Len(node) > 1 /\ Len(its) < MaxSteps + 1
           /\ LET i == Len(node) - 1
                  end == IF Replace THEN <<"r", i>> ELSE node[i + 1] IN
              /\ node' = [node EXCEPT ![i + 1] = end]
              /\ its' = Append(its, [i |-> i, l |-> node[i], r |-> end, of |-> buf])
           /\ UNCHANGED <<buf, seen>>

Read == \E k \in DOMAIN its : seen' = seen \cup {<<k, its[k].of>>} /\ UNCHANGED <<node, buf, its>>

Next == Advance \/ Observe \/ Read
Spec == Init /\ [][Next]_vars

Ends == \A k \in DOMAIN its : its[k].l = node[its[k].i] /\ its[k].r = node[its[k].i + 1]
Joined == \A k, m \in DOMAIN its : its[m].i = its[k].i + 1 => its[k].r = its[m].l
Frozen == \A a, b \in seen : a[1] = b[1] => a[2] = b[2]
Pure == ~Replace => \A i \in DOMAIN node : node[i] = <<"y", i - 1>>
=============================================================================
