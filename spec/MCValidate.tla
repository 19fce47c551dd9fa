------------------------------ MODULE MCValidate ------------------------------
(* Every class with every choice of up to Depth options; the configurations that are complete are printed for replay *)
EXTENDS Validate, TLC
CONSTANTS Depth, Emit
VARIABLES m, cf, ph, out
vars == <<m, cf, ph, out>>
None == [x \in {} |-> ""]
Init == m \in Classes /\ cf = None /\ ph = "choose" /\ out = ""
Rank == <<"y0", "max_step", "first_step", "rtol", "atol", "extra", "vectorized", "sc_params", "nfev_stiff_detect", "interpolant", "scale_embedded",
          "k_max", "const_jac", "rho_jac", "jac", "jac_sparsity", "M", "jac_each_step">>
Pos(o) == CHOOSE i \in 1 .. Len(Rank) : Rank[i] = o
Choose == /\ ph = "choose" /\ Cardinality(DOMAIN cf) < Depth
          /\ \E o \in Options(m) : /\ \A q \in DOMAIN cf : Pos(q) < Pos(o)
                                   /\ \E v \in Values(m, o) : cf' = [q \in DOMAIN cf \cup {o} |-> IF q = o THEN v ELSE cf[q]]
          /\ UNCHANGED <<m, ph, out>>
Construct == /\ ph = "choose" /\ ph' = "done"
             /\ out' = IF Refused(m, cf) THEN "refused" ELSE "accepted"
             /\ IF Emit THEN PrintT("ROW " \o m \o " " \o ToString([q \in DOMAIN cf |-> cf[q]])) ELSE TRUE
             /\ UNCHANGED <<m, cf>>
Next == Choose \/ Construct
Spec == Init /\ [][Next]_vars
(* the table is consistent: values are good or bad, never both; every option has good values; the defaults are accepted;
   adding a good value never rescues a bad configuration and never spoils a good one *)
ASSUME \A c \in Classes : \A o \in Options(c) : Good(c, o) \cap Bad(c, o) = {} /\ Good(c, o) # {}
DefaultOk == cf = None => ~Refused(m, cf)
Monotone == ph = "choose" /\ Cardinality(DOMAIN cf) < 2 => \A o \in Options(m) \ DOMAIN cf : \A v \in Values(m, o) :
              Refused(m, [q \in DOMAIN cf \cup {o} |-> IF q = o THEN v ELSE cf[q]]) = (Refused(m, cf) \/ v \in Bad(m, o))
ASSUME \A c \in Classes : \A o \in Options(c) : o \in {Rank[i] : i \in 1 .. Len(Rank)}
=============================================================================
