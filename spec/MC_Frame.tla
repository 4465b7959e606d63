------------------------------ MODULE MC_Frame ------------------------------
(***************************************************************************)
(* Objects are references to cells of a heap.  Calls work on copies of     *)
(* what they are given, hand out fresh cells, and write only cells of the  *)
(* objects they may change.  Variants: "hands out" = a result shares the   *)
(* cell of an argument; "works on it" = a call sorts its argument in       *)
(* place; "keeps" = a model keeps the array it is given.                   *)
(***************************************************************************)
EXTENDS Frame, TLC
CONSTANTS MaxOps, Variant
VARIABLES cell, heap, call, n, old
vars == <<cell, heap, call, n, old>>

Lists  == {"wells", "obs"}
Models == {"m1", "m2"}
Fields == {"f"}
Names  == Lists \cup Models \cup Fields \cup {"settings", "generators"}
Content(c, h) == [x \in DOMAIN c |-> h[c[x]]]
Fresh == Len(heap) + 1

Init == /\ heap = [i \in 1 .. 7 |-> 0]
        /\ cell = "wells" :> 1 @@ "obs" :> 2 @@ "m1" :> 3 @@ "m2" :> 4 @@ "f" :> 5 @@ "settings" :> 6 @@ "generators" :> 7
        /\ call = [op |-> "none", t |-> <<>>, ok |-> TRUE] /\ n = 0 /\ old = Content(cell, heap)
Do(op, t, ok, c, h) == /\ n < MaxOps /\ n' = n + 1 /\ call' = [op |-> op, t |-> t, ok |-> ok]
                       /\ old' = Content(cell, heap) /\ cell' = c /\ heap' = h
Write(x) == [heap EXCEPT ![cell[x]] = @ + 1]
Held == DOMAIN cell
Results == Held \ Names

Filter == LET r == "result" IN
          Do("filter", <<"obs">>, TRUE,
             (r :> IF Variant = "hands out" THEN cell["obs"] ELSE Fresh) @@ cell,
             IF Variant = "works on it" THEN Append(Write("obs"), 0) ELSE Append(heap, 0))
Fit(m, ok) == Do("fit", <<m, "obs">>, ok, IF Variant = "keeps" /\ ok THEN [cell EXCEPT ![m] = cell["obs"]] ELSE cell,
                 IF ok THEN Write(m) ELSE heap)
Assign(m)  == Do("assign", <<m>>, TRUE, cell, Write(m))
Mark(f)    == Do("rasterize", <<f>>, TRUE, cell, Write(f))
Edit(l)    == Do("edit", <<l>>, TRUE, cell, Write(l))
Look       == Do("potential", <<"m1">>, TRUE, cell, heap)
Run        == Do("run", <<"wells", "obs">>, TRUE, ("field" :> Fresh) @@ cell, Append(Write("generators"), 0))
Next == Filter \/ Look \/ Run \/ (\E m \in Models : Assign(m) \/ \E ok \in BOOLEAN : Fit(m, ok))
        \/ (\E f \in Fields \cup ({"field"} \cap Held) : Mark(f)) \/ (\E l \in Lists \cup ({"result"} \cap Held) : Edit(l))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what the call is not about keeps its content (a name handed out again is a new object)
FrameHolds == n > 0 => LET after == Content(cell, heap)
                           again == IF call.op = "filter" THEN {"result"} ELSE IF call.op = "run" THEN {"field"} ELSE {}
                       IN Unchanged(old, after, (DOMAIN old \ May(call)) \ again)
=============================================================================
