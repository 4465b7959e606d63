--------------------------- MODULE MC_ModelStore ---------------------------
(* All histories of operations on two models and two outside arrays.         *)
EXTENDS ModelStore, TLC
CONSTANTS Ms, Es, MaxOps
VARIABLES st, n, last
vars == <<st, n, last>>

Ops == [op : {"default"}, m : Ms, s : {1}, k : {1}, v : {0}]
  \cup [op : {"create", "assign"}, m : Ms, s : Es, k : {1}, v : {0}]
  \cup [op : {"from"}, m : Ms, s : Ms, k : {1}, v : {0}]
  \cup [op : {"inplace"}, m : Ms, s : {1}, k : {3}, v : {7}]
  \cup [op : {"mutate"}, m : {1}, s : Es, k : {3}, v : {9}]
  \cup [op : {"fit"}, m : Ms, s : {1}, k : {1}, v : {2}]
  \cup [op : {"fresh"}, m : {1}, s : Es, k : {1}, v : {5}]

Init == st = Start(Ms, Es) /\ n = 0 /\ last = [op |-> "none", m |-> 0]
Next == /\ n < MaxOps
        /\ \E o \in Ops : Possible(st, o) /\ st' = Apply(st, o) /\ last' = [op |-> o.op, m |-> o.m]
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars

Own == {"default", "create", "assign", "from", "inplace", "fit"}
OnlyThroughItself == [][ \A m \in Ms : CoefOf(st', m) # CoefOf(st, m) => last'.op \in Own /\ last'.m = m ]_vars
DefaultIsZero == [][ \A m \in Ms : (last'.op = "default" /\ last'.m = m) => CoefOf(st', m) = Zeros ]_vars
NoSharing == \A a, b \in Ms : (a # b /\ st.m[a] # 0) => st.m[a] # st.m[b]
NoOutsideSharing == \A a \in Ms, b \in Es : st.m[a] # 0 => st.m[a] # st.e[b]
=============================================================================
