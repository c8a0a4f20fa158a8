------------------------------- MODULE MeshMC -------------------------------
(* A wing is laid out region by region from tip to root: every region adds   *)
(* its panels after the nodes already laid, sharing the section where two    *)
(* regions meet.  Stations are kept in twelfths of a region; chords and      *)
(* widths are whole numbers, so areas add exactly over any split of the      *)
(* sections.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS PanelCounts, MaxRegions, Chords, Emit
VARIABLES panels, chord, k, nodes, owner, sec, phase, cut
vars == <<panels, chord, k, nodes, owner, sec, phase, cut>>
Tuples(n, T) == [1..n -> T]
Init == /\ \E n \in 1..MaxRegions : panels \in Tuples(n, PanelCounts) /\ chord \in Tuples(n + 1, Chords)
        /\ k = 0 /\ nodes = <<0>> /\ owner = <<{}>> /\ sec = <<1>> /\ phase = "lay" /\ cut = <<0, 0>>
Regions == Len(panels)
Lay == /\ phase = "lay" /\ k < Regions
       /\ LET n == panels[k + 1]
              new == [m \in 1..n |-> k * 12 + (m * 12) \div n]
          IN /\ nodes' = nodes \o new
             /\ owner' = [owner EXCEPT ![Len(owner)] = @ \cup {k + 1}] \o [m \in 1..n |-> {k + 1}]
             /\ sec' = Append(sec, Len(nodes) + n)
       /\ k' = k + 1 /\ UNCHANGED <<panels, chord, phase, cut>>
\* a region of interest: sections a..b (0-based, inclusive)
Select == /\ phase = "lay" /\ k = Regions
          /\ \E a \in 0..(Regions - 1) : \E b \in (a + 1)..Regions : cut' = <<a, b>>
          /\ phase' = "done" /\ UNCHANGED <<panels, chord, k, nodes, owner, sec>>
Next == Lay \/ Select
Spec == Init /\ [][Next]_vars
\* twice the area of one side between sections a and b, unit widths
Area(a, b) == FoldSeq(LAMBDA i, s : s + chord[i] + chord[i + 1], 0, [i \in 1..(b - a) |-> a + i])
Ordered == \A i \in 1..(Len(nodes) - 1) : nodes[i] < nodes[i + 1]
Count == Len(nodes) = 1 + FoldSeq(LAMBDA n, s : s + n, 0, SubSeq(panels, 1, k))
SectionsOnNodes == \A s \in 1..Len(sec) : nodes[sec[s]] = 12 * (s - 1)
Shared == \A i \in 1..Len(nodes) : (phase = "done") => owner[i] # {} /\ (Cardinality(owner[i]) = 2 <=> (nodes[i] % 12 = 0 /\ i \notin {1, Len(nodes)}))
Additive == phase = "done" => Area(0, cut[1]) + Area(cut[1], cut[2]) + Area(cut[2], Regions) = Area(0, Regions)
Report == (Emit /\ phase = "done") => PrintT("@@" \o ToJson([panels |-> panels, chord |-> chord, cut |-> cut, sec |-> sec]))
=============================================================================
