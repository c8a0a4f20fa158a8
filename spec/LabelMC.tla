------------------------------- MODULE LabelMC -------------------------------
(* A data tree (paths of keys with values and units) and the programs that   *)
(* read entries from it or relabel variables.  The meaning of reading a path *)
(* is the entry at that path; a path that is absent or that is not a leaf is *)
(* refused.                                                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxReads, Emit
Keys == {"a", "b", "cc"}
Paths == UNION {[1..k -> Keys] : k \in 1..3}
Leaves == { <<"a">>, <<"b", "a">>, <<"b", "cc", "a">>, <<"b", "cc", "b">>, <<"cc", "cc">> }   \* the entries of the tree
Broken == {<<"cc", "b">>}                                                                    \* an entry with no value
Forms == {"int", "float", "npfloat", "vec1", "vec3", "mat"}
Units == {"absent", "none", "ft", "kg/m**3"}
VARIABLES forms, reads, done
vars == <<forms, reads, done>>
Shape(f) == CASE f \in {"int", "float", "npfloat", "vec1"} -> <<1>> [] f = "vec3" -> <<3>> [] OTHER -> <<2, 2>>
Init == forms \in [Leaves -> Forms \X Units] /\ reads = <<>> /\ done = FALSE
       /\ \A p, q \in Leaves : (Len(p) % 2 = Len(q) % 2 => forms[p] = forms[q])      \* thins the space
Outcome(p) == IF p \in Leaves THEN "value" ELSE "refused"
Read == /\ ~done /\ Len(reads) < MaxReads
        /\ \E p \in Leaves \cup Broken \cup {<<"b">>, <<"b", "b">>, <<"a", "a">>, <<"cc", "cc", "a">>} :
             /\ (reads # <<>> => \A i \in 1..Len(reads) : reads[i].path # p /\ reads[i].outcome = "value")
             /\ reads' = Append(reads, [path |-> p, outcome |-> Outcome(p)])
        /\ UNCHANGED <<forms, done>>
Go == /\ ~done /\ reads # <<>> /\ done' = TRUE /\ UNCHANGED <<forms, reads>>
      /\ Emit => PrintT("@@" \o ToJson([tree |-> SetToSeq({[path |-> p, form |-> forms[p][1], units |-> forms[p][2]] : p \in Leaves}), reads |-> reads]))
Next == Read \/ Go
Spec == Init /\ [][Next]_vars
Refused == \A i \in 1..Len(reads) : reads[i].outcome = "value" <=> reads[i].path \in Leaves
Distinct == \A i, j \in 1..Len(reads) : i # j => reads[i].path # reads[j].path
=============================================================================
