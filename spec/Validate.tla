------------------------------ MODULE Validate ------------------------------
(* The decision table of the constructors: which classes have which options, which values are valid, and what becomes of
   the tolerances.  A configuration is a function from the options that are passed to value tokens.                     *)
EXTENDS Integers, Sequences, FiniteSets

Embedded == {"BS5", "Ts5", "CK5", "Pr7", "Pr8", "Pr9", "CFMR7osc", "Me4"}
Nystrom == {"Fi4N", "Fi5N", "Mu5Nmb", "MR6NN"}
Implicit == {"TRBDF2", "TRX2", "HS2I", "HS2Ia", "KC3I", "KC4I", "KC4Ia", "Kv3I"}
Classes == Embedded \cup Nystrom \cup Implicit \cup {"CKdisc", "SWAG", "SSV2stab"}

Common == {"y0", "max_step", "first_step", "rtol", "atol", "extra", "vectorized"}
Options(m) == Common
    \cup (IF m \in Embedded \cup Nystrom \cup Implicit \cup {"CKdisc"} THEN {"sc_params"} ELSE {})
    \cup (IF m \in Embedded \cup Nystrom THEN {"nfev_stiff_detect"} ELSE {})
    \cup (IF m \in {"BS5", "Fi5N", "Mu5Nmb", "KC3I", "KC4I", "KC4Ia", "Kv3I"} THEN {"interpolant"} ELSE {})
    \cup (IF m = "Mu5Nmb" THEN {"scale_embedded"} ELSE {})
    \cup (IF m = "SWAG" THEN {"k_max"} ELSE {})
    \cup (IF m = "SSV2stab" THEN {"const_jac", "rho_jac"} ELSE {})
    \cup (IF m \in Implicit THEN {"jac", "jac_sparsity", "M", "jac_each_step"} ELSE {})

Good(m, o) ==
    CASE o = "y0" -> {"list", "tuple", "ints", "float32"} \cup (IF m = "SSV2stab" THEN {} ELSE {"complex"})
      [] o = "max_step" -> {"positive", "infinite", "integer", "minute"}
      [] o = "first_step" -> {"positive", "exact", "integer"}
      [] o = "rtol" -> {"normal", "zero", "tiny", "big", "lower", "upper", "npfloat"}
      [] o = "atol" -> {"scalar", "array", "list", "tuple", "zero", "zerocomp", "allzero", "integer"}
      [] o = "extra" -> {"unknown"}
      [] o = "vectorized" -> {"true"}
      [] o = "sc_params" -> {"G", "S", "standard", "tuple4", "none"}
      [] o = "nfev_stiff_detect" -> {"zero", "one", "default", "large"}
      [] o = "interpolant" -> CASE m = "BS5" -> {"best", "low", "free"}
                                [] m = "Fi5N" -> {"0", "1", "2", "3"}
                                [] m = "Mu5Nmb" -> {"better", "free"}
                                [] OTHER -> {"C0", "C1"}
      [] o = "scale_embedded" -> {"true", "false"}
      [] o = "k_max" -> {"1", "4", "12"}
      [] o = "const_jac" -> {"true", "false"}
      [] o = "rho_jac" -> {"none", "function"}
      [] o = "jac" -> {"none", "function", "array", "list", "sparse", "sparsefunction"}
      [] o = "jac_sparsity" -> {"none", "dense", "sparse"}
      [] o = "M" -> {"none", "diagonal", "list", "full", "diagonal2d", "sparse"}
      [] o = "jac_each_step" -> {"true", "false"}

Bad(m, o) ==
    CASE o = "y0" -> {"nan", "inf", "2d"} \cup (IF m = "SSV2stab" THEN {"complex"} ELSE {})
      [] o = "max_step" -> {"zero", "negative", "minusinf", "string"}
      [] o = "first_step" -> {"zero", "negative", "toolong", "string"}
      [] o = "rtol" -> {"negative", "negtiny", "integer", "string", "array"}
      [] o = "atol" -> {"negative", "negcomp", "short", "long", "2d"}
      [] o = "sc_params" -> {"unknown", "tuple3", "tuple5", "list4", "number"}
      [] o = "nfev_stiff_detect" -> {"negative", "float", "string"}
      [] o = "interpolant" -> IF m = "Fi5N" THEN {"4", "-1", "unknown"} ELSE {"unknown", "case"}
                                \cup (IF m = "Mu5Nmb" THEN {"best"} ELSE IF m = "BS5" THEN {"better"} ELSE {"C2"})
      [] o = "k_max" -> {"0", "-1", "13", "float", "string"}
      [] o = "const_jac" -> {"string", "one"}
      [] o = "rho_jac" -> {"number", "integer", "negative", "zero", "array"}
      [] o = "jac" -> {"short", "long", "row", "shortfunction", "vectorfunction", "shortsparse", "shortsparsefunction"}
      [] o = "M" -> {"short1d", "long1d", "short2d", "oblong", "3d", "number", "shortsparse"}
      [] OTHER -> {}

Values(m, o) == Good(m, o) \cup Bad(m, o)

Refused(m, cf) == \E o \in DOMAIN cf : cf[o] \in Bad(m, o)
(* tolerances after construction: "as" given (or default), at the bound otherwise *)
Rtol(cf) == IF "rtol" \in DOMAIN cf THEN (IF cf.rtol \in {"zero", "tiny"} THEN "lo" ELSE IF cf.rtol = "big" THEN "hi" ELSE "as") ELSE "as"
Atol(cf) == IF "atol" \in DOMAIN cf THEN (IF cf.atol \in {"zero", "allzero"} THEN "min" ELSE IF cf.atol = "zerocomp" THEN "part" ELSE "as") ELSE "as"
(* options a class does not have, and detection asked of a method without it, are reported by a warning *)
Warned(m, cf) == "extra" \in DOMAIN cf \/ (m = "MR6NN" /\ "nfev_stiff_detect" \in DOMAIN cf /\ cf["nfev_stiff_detect"] \in {"one", "large"})
(* the length of the first attempt is not beyond the limits *)
=============================================================================
