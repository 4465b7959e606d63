----------------------------- MODULE ModelStore -----------------------------
(***************************************************************************)
(* Several models and the arrays outside of them, as a heap of arrays and  *)
(* references to them.  A model owns its coefficients: whatever is given to *)
(* it or comes out of it is another array (Copy; the wrong variant keeps   *)
(* the reference).  An operation is a record op, m (model), s (source: an  *)
(* external array or another model), k, v (component and value).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Copy

Zeros == <<0, 0, 0, 0, 0, 0>>

\* st: heap (sequence of arrays), m (model -> reference, 0: not there), e (external array -> reference)
New(st, val) == [st EXCEPT !.heap = Append(@, val)]
Top(st) == Len(st.heap)
Val(st, r) == st.heap[r]
Set(st, r, k, v) == [st EXCEPT !.heap[r] = [@ EXCEPT ![k] = v]]

Give(st, m, r) ==        \* model m is given the array r
    IF Copy THEN LET s1 == New(st, Val(st, r)) IN [s1 EXCEPT !.m[m] = Top(s1)]
            ELSE [st EXCEPT !.m[m] = r]

DefaultRef == 1          \* the default argument of the constructor (only the wrong variant can change it)

Fitted(v) == <<v, -v, 1, v + 1, 2, 40>>

Apply(st, o) ==
    CASE o.op = "default" -> Give(st, o.m, DefaultRef)
      [] o.op = "create"  -> Give(st, o.m, st.e[o.s])
      [] o.op = "assign"  -> Give(st, o.m, st.e[o.s])
      [] o.op = "from"    -> Give(st, o.m, st.m[o.s])
      [] o.op = "inplace" -> Set(st, st.m[o.m], o.k, o.v)
      [] o.op = "mutate"  -> Set(st, st.e[o.s], o.k, o.v)
      [] o.op = "fit"     -> LET s1 == New(st, Fitted(o.v))
                                 s2 == [s1 EXCEPT !.e[o.s] = Top(s1)]    \* the returned array
                             IN  Give(s2, o.m, Top(s1))
      [] o.op = "fresh"   -> LET s1 == New(st, <<o.v, o.v + 1, o.v + 2, o.v + 3, o.v + 4, o.v + 5>>) IN [s1 EXCEPT !.e[o.s] = Top(s1)]

Possible(st, o) ==
    CASE o.op \in {"inplace", "fit"} -> st.m[o.m] # 0
      [] o.op = "assign" -> st.m[o.m] # 0 /\ st.e[o.s] # 0
      [] o.op = "create" -> st.e[o.s] # 0
      [] o.op = "from"   -> st.m[o.m] # 0 /\ st.m[o.s] # 0 /\ o.m # o.s
      [] o.op = "mutate" -> st.e[o.s] # 0
      [] OTHER -> TRUE

CoefOf(st, m) == IF st.m[m] = 0 THEN <<>> ELSE Val(st, st.m[m])
Start(Ms, Es) == [heap |-> <<Zeros>>, m |-> [i \in Ms |-> 0], e |-> [i \in Es |-> 0]]
=============================================================================
