------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configurations of oneka() and which of them are valid.              *)
(*                                                                         *)
(* A configuration is the base configuration with some fields deviating.   *)
(* A field is a parameter, or one aspect of the lists of wells and         *)
(* observations:                                                           *)
(*   target, nwells       the index and the number of wells                *)
(*   wform, wdef, wpos    form of the list; what is wrong (or unusual)     *)
(*                        with one well, and which                         *)
(*   far, near, dup       numbers of observations beyond the buffers,      *)
(*                        within one, and repeating one beyond             *)
(*   oform, odef, opos    as for the wells                                 *)
(* Values are kinds of values; the driver picks concrete ones.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Text   == {"projectname", "runtime"}
Dists  == {"c_dist", "p_dist", "t_dist"}
Positive == {"buffer", "spacing", "umbra", "tol", "maxstep"}
Optional == Positive \cup {"smooth", "confined"}
NoNumber == {"text", "numeric text", "none", "list", "empty list", "dict", "complex"}

DistGood == {"int", "float", "pair", "list pair", "int pair", "equal pair", "triple", "list triple", "equal triple",
             "mode at min", "mode at max"}
DistBad  == {"descending pair", "descending triple", "mode below", "mode above", "empty tuple", "empty list", "one tuple",
             "one list", "nan", "nan pair", "nan triple", "four tuple", "four list", "text", "none", "dict", "pair of texts", "nested pair", "set"}
\* below the bound 0; above the bound 1
Below    == {"negative", "low pair", "low triple"}
Above    == {"above", "high pair", "high triple"}
\* exactly at the bound
AtBound  == {"one", "pair to one"}

NotPositive == {"zero", "zero float", "negative", "negative float", "nan"}
\* not finite: places and times that are none
Endless  == {"infinite", "minus infinite"}
NoPlace  == {"x nan", "x infinite", "y nan", "y infinite"}

Good(f) ==
    CASE f \in Text      -> {"text", "empty text"}
      [] f = "target"    -> {"0", "1", "2"}                    \* and less than the number of wells
      [] f = "npaths"    -> {"one", "int"}
      [] f = "duration"  -> {"int", "float", "negative", "negative float"}
      [] f = "nrealizations" -> {"one", "int"}
      [] f = "base"      -> {"int", "float", "zero", "negative", "negative float"}
      [] f \in {"c_dist", "t_dist"} -> DistGood
      [] f = "p_dist"    -> (DistGood \ {"int", "int pair"}) \cup AtBound
      [] f \in Positive  -> {"int", "float", "default"}
      [] f = "smooth"    -> {"zero", "zero float", "int", "float", "default"}
      [] f = "confined"  -> {"true", "false", "default"}
      [] f = "nwells"    -> {"1", "2", "3"}
      [] f = "wform"     -> {"list"}
      [] f = "wdef"      -> {"", "as list", "int x", "int y", "int r", "q int", "q negative", "q zero", "q pair", "q triple",
                             "q list", "q negative pair"}
      [] f = "wpos"      -> {"target", "first", "last"}
      [] f = "far"       -> {"7", "8", "9", "12"}
      [] f = "near"      -> {"0", "1", "2"}
      [] f = "dup"       -> {"0", "1", "2"}
      [] f = "oform"     -> {"list"}
      [] f = "odef"      -> {"", "as list", "int x", "int y", "int z", "int s"}
      [] f = "opos"      -> {"first", "last", "middle", "near"}

Bad(f) ==
    CASE f \in Text      -> {"int", "none", "list", "float"}
      [] f = "target"    -> {"-1", "3", "4", "float", "zero float"} \cup NoNumber
      [] f = "npaths"    -> {"zero", "negative", "float", "whole float"} \cup NoNumber
      [] f = "duration"  -> {"zero", "zero float", "nan"} \cup Endless \cup NoNumber
      [] f = "nrealizations" -> {"text", "numeric text", "none", "list", "dict"}
      [] f = "base"      -> {"nan"} \cup Endless \cup NoNumber
      [] f = "p_dist"    -> DistBad \cup Below \cup Above
      [] f \in Dists     -> DistBad \cup Below
      [] f \in {"spacing", "umbra"} -> NotPositive \cup Endless \cup NoNumber
      [] f \in Positive  -> NotPositive \cup NoNumber
      [] f = "smooth"    -> {"negative", "negative float", "nan"} \cup Endless \cup NoNumber
      [] f = "confined"  -> {"one", "zero", "float"} \cup NoNumber
      [] f = "nwells"    -> {"0"}
      [] f = "wform"     -> {"tuple", "dict", "none", "text"}
      [] f = "wdef"      -> {"three entries", "five entries", "empty", "none", "number", "x text", "x none", "x list", "y text", "y none",
                             "r zero", "r zero float", "r negative", "r nan", "r text", "r none", "q none", "q nan pair", "q text", "q empty",
                             "q descending", "q unordered", "q four", "q one", "q texts", "r infinite"} \cup NoPlace
      [] f = "wpos"      -> {}
      [] f = "far"       -> {"0", "4", "5", "6"}
      [] f = "near"      -> {}
      [] f = "dup"       -> {}
      [] f = "oform"     -> {"tuple", "dict", "none", "text"}
      [] f = "odef"      -> {"three entries", "five entries", "empty", "none", "number", "x text", "x none", "y text", "y none", "z text",
                             "z none", "z list", "s zero", "s zero float", "s negative", "s nan", "s text", "s none",
                             "z nan", "z infinite"} \cup NoPlace
      [] f = "opos"      -> {}

Fields == Text \cup Dists \cup Optional \cup {"target", "npaths", "duration", "nrealizations", "base", "nwells", "wform", "wdef",
          "wpos", "far", "near", "dup", "oform", "odef", "opos"}

Base == [f \in Fields |->
    CASE f \in Text -> "text" [] f = "target" -> "0" [] f = "npaths" -> "int" [] f = "duration" -> "float"
      [] f = "nrealizations" -> "int" [] f = "base" -> "float" [] f \in Dists -> "pair"
      [] f \in Positive -> "float" [] f = "smooth" -> "float" [] f = "confined" -> "true" [] f = "nwells" -> "2"
      [] f \in {"wform", "oform"} -> "list" [] f \in {"wdef", "odef"} -> "" [] f = "wpos" -> "target"
      [] f = "far" -> "8" [] f = "near" -> "1" [] f = "dup" -> "1" [] f = "opos" -> "middle"]

\* a configuration: a set of deviations <<field, value>>, at most one of a field
With(ds) == [f \in Fields |-> IF \E d \in ds : d[1] = f THEN (CHOOSE d \in ds : d[1] = f)[2] ELSE Base[f]]
All(f) == Good(f) \cup Bad(f)

\* numbers are written as texts, for they share fields with other kinds of values
Num(x) == CASE x = "-1" -> -1 [] x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4
            [] x = "5" -> 5 [] x = "6" -> 6 [] x = "7" -> 7 [] x = "8" -> 8 [] x = "9" -> 9 [] x = "12" -> 12

\* nothing is repeated if there is nothing to repeat
Dups(c)  == IF Num(c["far"]) = 0 THEN 0 ELSE Num(c["dup"])
Given(c) == Num(c["far"]) + Num(c["near"]) + Dups(c)
Left(c)  == Num(c["far"])                     \* the near ones are removed, repeated ones are merged

\* what can be said about the arguments one by one
ArgumentsValid(c) ==
    /\ \A f \in Fields \ {"target", "far"} : c[f] \in Good(f)
    /\ c["target"] \in Good("target") /\ Num(c["target"]) < Num(c["nwells"])
    /\ Given(c) > 6
\* and what shows when the observations have been filtered
EnoughLeft(c) == Left(c) > 6
Accept(c) == ArgumentsValid(c) /\ EnoughLeft(c)

\* the documented defaults
Default(f) == CASE f = "buffer" -> 100 [] f = "spacing" -> 10 [] f = "umbra" -> 10 [] f = "smooth" -> 0
                [] f = "tol" -> 1 [] f = "maxstep" -> 10 [] f = "confined" -> 1
=============================================================================
