----------------------------- MODULE Gen_Config -----------------------------
(* Every configuration with at most MaxDev deviations of the kinds below,   *)
(* and all numbers of wells, targets and observations, written out with the *)
(* specified verdict.                                                       *)
EXTENDS Config, TLC, Json, IOUtils, CSV
CONSTANTS Pairs

One == UNION {{{<<f, v>>} : v \in All(f)} : f \in Fields}
Counts == {{<<"far", a>>, <<"near", b>>, <<"dup", c>>} : a \in All("far"), b \in All("near"), c \in All("dup")}
Target == {{<<"nwells", a>>, <<"target", b>>} : a \in All("nwells"), b \in All("target")}
WellAt == {{<<"wdef", a>>, <<"wpos", b>>, <<"nwells", "3">>, <<"target", t>>} : a \in All("wdef"), b \in All("wpos"), t \in {"0", "1", "2"}}
ObsAt  == {{<<"odef", a>>, <<"opos", b>>} : a \in All("odef"), b \in All("opos")}
\* all optional parameters left out but one
Defaults == LET D == {<<f, "default">> : f \in Optional} IN
            {D} \cup {(D \ {<<f, "default">>}) \cup {<<f, v>>} : f \in Optional, v \in {"float", "text"}}
VARIABLE d
Init == \/ d \in One \/ d \in Counts \/ d \in Target \/ d \in WellAt \/ d \in ObsAt \/ d \in Defaults
        \/ \E x \in One : d = {<<"nrealizations", "one">>} \cup x /\ \A y \in x : y[1] # "nrealizations"
        \/ /\ Pairs
           /\ \E f \in Fields : \E g \in Fields \ {f} : \E v \in All(f) \ {Base[f]} : \E w \in All(g) \ {Base[g]} :
                 d = {<<f, v>>, <<g, w>>}
GSpec == Init /\ [][FALSE]_d
Emit == CSVWrite("%1$s", <<ToJson([cfg |-> With(d), ok |-> Accept(With(d)), dev |-> Cardinality(d),
          bad |-> {f \in Fields : With(d)[f] \in Bad(f)}])>>, IOEnv.VP_OUT)
=============================================================================
