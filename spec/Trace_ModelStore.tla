------------------------- MODULE Trace_ModelStore -------------------------
(* Every event is an operation o and what all models' coefficients were      *)
(* afterwards (coefs: one sequence per model, <<>> if there is none; in      *)
(* 10^-3), and its exception err.                                            *)
EXTENDS ModelStore, TraceKit
SInit(t) == Start(1 .. 3, 1 .. 2)
SNext(t, s, e) == Apply(s, e.o)
Mk(props, clause, cond) == IF cond THEN {} ELSE {<<q, clause>> : q \in props}
Same(a, c) == Len(a) = Len(c) /\ \A k \in 1 .. Len(a) : a[k] = 1000 * c[k]
SFail(t, s, e) ==
    LET n == Apply(s, e.o) IN
    Mk({"C17"}, "the operation ended with " \o e.err, e.err = "")
  \cup IF e.err # "" THEN {} ELSE
    Mk({"C17"}, "the coefficients are those of the operations on this model",
       \A m \in 1 .. 3 : m = e.o.m => Same(e.coefs[m], CoefOf(n, m)))
  \cup Mk({"C17"}, "no other model has changed", \A m \in 1 .. 3 : m # e.o.m => Same(e.coefs[m], CoefOf(n, m)))
=============================================================================
