------------------------------- MODULE Frame -------------------------------
(***************************************************************************)
(* What a call may change.  The user holds objects - lists of wells and    *)
(* observations, tables, models, fields, results handed out earlier - and  *)
(* there are the settings of the process and its random generators.        *)
(* Every object has a content; a call changes the objects it is documented *)
(* to change, hands out new ones, and leaves everything else as it is.     *)
(*                                                                         *)
(* A call is a record [op, t, ok]: t = the objects it is about.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* fitting or assigning coefficients changes that model, working on a field that field,
\* drawing random numbers the generators; editing is done by the user himself
Writes(c) ==
    CASE c.op \in {"fit", "assign"} -> IF c.ok THEN {c.t[1]} ELSE {}
      [] c.op \in {"expand", "rasterize", "insert", "register", "reset", "capture zone"} -> {c.t[1]}
      [] c.op = "edit" -> {c.t[1]}
      [] c.op = "forget" -> {c.t[i] : i \in 1 .. Len(c.t)}   \* the user lets go of them
      [] OTHER -> {}
Draws(c) == c.op \in {"variate", "stochastic run", "run"}
May(c) == Writes(c) \cup IF Draws(c) THEN {"generators"} ELSE {}

\* contents: a function from names to contents
Unchanged(before, after, names) == \A n \in names : after[n] = before[n]
=============================================================================
