----------------------------- MODULE Isolation -----------------------------
(* Several solvers alive at once (slots), stepped, observed and re-created in any order.  Every solver works in a storage
   of its own that each step overwrites and each dense output extends; an interpolant keeps what it read when it was
   made.  The only shared state is the public failure counter, which a creation resets and every solver's rejected
   attempts increase.
     New(i)    create (or replace) the solver of slot i
     Stp(i)    one step
     Obs(i)    make an interpolant of the last step (may extend the storage by extra stages)
     Evl(i)    evaluate the oldest interpolant of slot i again
   Deep bounds are explored by TLC; every behaviour of the given length is printed as a script and replayed into real
   solvers (TraceIsolation.tla).                                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots, MaxOps, MaxSteps, Emit
VARIABLES steps,    \* slot -> steps taken, -1: no solver
          store,    \* slot -> content of the working storage: <<owner, generation, step, extended>>
          gen,      \* slot -> how many solvers the slot has had
          sols,     \* slot -> sequence of interpolants: what they were made from
          nfs,      \* contributions to the failure counter since the last creation: set of <<slot, gen, step>>
          log
vars == <<steps, store, gen, sols, nfs, log>>

Init == /\ steps = [i \in Slots |-> -1] /\ gen = [i \in Slots |-> 0]
        /\ store = [i \in Slots |-> <<i, 0, -1, FALSE>>]
        /\ sols = [i \in Slots |-> <<>>] /\ nfs = {} /\ log = <<>>

Room == Len(log) < MaxOps
Out(op, i) == /\ log' = Append(log, <<op, i>>)
              /\ IF Emit /\ Len(log) + 1 = MaxOps THEN PrintT("SCRIPT " \o ToString(log')) ELSE TRUE

New(i) == /\ Room /\ (log = <<>> => i = 1) /\ steps[i] # 0
          /\ steps' = [steps EXCEPT ![i] = 0] /\ gen' = [gen EXCEPT ![i] = @ + 1]
          /\ store' = [store EXCEPT ![i] = <<i, gen[i] + 1, 0, FALSE>>]
          /\ sols' = [sols EXCEPT ![i] = <<>>]
          /\ nfs' = {} /\ Out("new", i)
Stp(i) == /\ Room /\ steps[i] \in 0 .. MaxSteps - 1
          /\ steps' = [steps EXCEPT ![i] = @ + 1]
          /\ store' = [store EXCEPT ![i] = <<i, gen[i], steps[i] + 1, FALSE>>]
          /\ nfs' = nfs \cup {<<i, gen[i], steps[i] + 1>>}
          /\ UNCHANGED <<gen, sols>> /\ Out("step", i)
Obs(i) == /\ Room /\ steps[i] >= 1 /\ Len(sols[i]) < 2
          /\ store' = [store EXCEPT ![i][4] = TRUE]
          /\ sols' = [sols EXCEPT ![i] = Append(@, <<store[i][1], store[i][2], store[i][3]>>)]
          /\ UNCHANGED <<steps, gen, nfs>> /\ Out("dense", i)
Evl(i) == /\ Room /\ sols[i] # <<>> /\ log[Len(log)] # <<"eval", i>> /\ log[Len(log)] # <<"dense", i>>
          /\ UNCHANGED <<steps, store, gen, sols, nfs>> /\ Out("eval", i)
Next == \E i \in Slots : New(i) \/ Stp(i) \/ Obs(i) \/ Evl(i)
Spec == Init /\ [][Next]_vars

(* what a slot can observe is a function of its own operations since its creation *)
LastNew(i) == CHOOSE k \in 1 .. Len(log) : log[k] = <<"new", i>> /\ \A m \in k + 1 .. Len(log) : log[m] # <<"new", i>>
Own(i) == LET k == LastNew(i) IN SelectSeq(SubSeq(log, k, Len(log)), LAMBDA o : o[2] = i)
Count(s, op) == Len(SelectSeq(s, LAMBDA o : o[1] = op))
Independent == \A i \in Slots : steps[i] >= 0 =>
    /\ steps[i] = Count(Own(i), "step")
    /\ store[i][1] = i /\ store[i][2] = gen[i] /\ store[i][3] = steps[i]
    /\ Len(sols[i]) = Count(Own(i), "dense")
FrozenSols == \A i \in Slots : \A k \in 1 .. Len(sols[i]) : sols[i][k][1] = i /\ sols[i][k][2] = gen[i]
KeepSols == [][\A i \in Slots : \A k \in 1 .. Len(sols[i]) :
                 gen'[i] = gen[i] => sols'[i][k] = sols[i][k]]_vars
(* the counter holds the steps since the last creation of any solver, and nothing else *)
LastAny == CHOOSE k \in 0 .. Len(log) : (k = 0 \/ log[k][1] = "new") /\ \A m \in k + 1 .. Len(log) : log[m][1] # "new"
Counter == Cardinality(nfs) = Count(SubSeq(log, LastAny + 1, Len(log)), "step")
=============================================================================
