------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Which requests the library serves (C14, C11): for every combination of  *)
(* method, compile mode, exponent and kind of data, whether the call       *)
(* returns the value of the definition or raises.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Methods  == {"auto", "naive", "avl", "mergesort"}
Modes    == {"auto", "no_compile", "cpu", "parallel"}
Kinds    == {"1d", "column", "mixed", "int", "multi_x", "multi_y", "multi", "strict", "short_y", "short_x", "tiny"}

Univariate(k) == k \in {"1d", "column", "mixed", "int", "tiny", "short_x", "short_y"}
Numpy(k)      == k # "strict"
Unequal(k)    == k \in {"short_x", "short_y"}
Tiny(k)       == k = "tiny"          \* 2 or 3 observations

FastModes  == {"auto", "no_compile", "cpu"}
NaiveModes == {"auto", "no_compile"}

(* exp1: the exponent is 1 *)
FastServes(k, exp1) == Univariate(k) /\ Numpy(k) /\ exp1

Chosen(meth, k, exp1) ==
    IF meth # "auto" THEN meth
    ELSE IF FastServes(k, exp1) /\ ~ Tiny(k) THEN "avl" ELSE "naive"

(* "value", "raise", or "any" (not specified) *)
Serves(meth, mode, k, exp1) ==
    LET m == Chosen(meth, k, exp1)
    IN  IF Unequal(k) THEN "raise"
        ELSE IF meth \notin Methods THEN "raise"
        ELSE IF m = "naive" THEN (IF mode \in NaiveModes THEN "value" ELSE "raise")
        ELSE IF ~ FastServes(k, exp1) \/ mode \notin FastModes THEN "raise"
        ELSE IF m = "avl" /\ Tiny(k) THEN "any"
        ELSE "value"

(* The rowwise computation of a measure of the package *)
HasOptimized(meth, mode, k, exp1) ==
    /\ meth \in {"auto", "avl"} /\ mode \in {"auto", "cpu", "parallel"}
    /\ Univariate(k) /\ Numpy(k) /\ exp1 /\ ~ Tiny(k) /\ ~ Unequal(k)

RowServes(rmode, fn, meth, mode, k, exp1) ==
    IF fn = "user" THEN (IF rmode = "optimized" THEN "raise" ELSE "value")
    ELSE IF rmode = "optimized"
    THEN (IF HasOptimized(meth, mode, k, exp1) THEN "value" ELSE "raise")
    ELSE IF rmode = "auto" /\ HasOptimized(meth, mode, k, exp1) THEN "value"
    ELSE Serves(meth, mode, k, exp1)

Warns(p, q) == p <= 0 \/ p >= 2 * q
=============================================================================
