------------------------------- MODULE PlotMC -------------------------------
(* A plotting session lays variables out panel by panel, page by page.       *)
(* Whatever the layout and the number of variables, every variable gets one  *)
(* panel of its own, panels fill a page row by row, and a page is written    *)
(* when it is left, under its own number.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxVars, MaxRows, MaxCols, Emit
VARIABLES lay, todo, panels, written, page, cnt
vars == <<lay, todo, panels, written, page, cnt>>
\* where variable i belongs, from nothing but i and the layout
Place(rows, cols, i) == [page |-> (i - 1) \div (rows * cols), row |-> ((i - 1) % (rows * cols)) \div cols, col |-> (i - 1) % cols]
Init == /\ lay \in [rows : 1..MaxRows, cols : 1..MaxCols, vars : 1..MaxVars, phases : 1..3, cases : 1..2]
        /\ todo = lay.vars /\ panels = <<>> /\ written = <<>> /\ page = -1 /\ cnt = 0
Draw == /\ todo > 0
        /\ LET turn == cnt % (lay.rows * lay.cols) = 0
               pg == IF turn THEN page + 1 ELSE page
               c == IF turn THEN 0 ELSE cnt
           IN /\ page' = pg /\ cnt' = c + 1
              /\ written' = IF turn /\ page >= 0 THEN Append(written, page) ELSE written
              /\ panels' = Append(panels, [page |-> pg, row |-> c \div lay.cols, col |-> c % lay.cols])
        /\ todo' = todo - 1 /\ UNCHANGED lay
Close == todo = 0 /\ Len(written) <= page /\ written' = Append(written, page) /\ UNCHANGED <<lay, todo, panels, page, cnt>>
Next == Draw \/ Close
Spec == Init /\ [][Next]_vars
Placed == \A i \in 1..Len(panels) : panels[i] = Place(lay.rows, lay.cols, i)
OwnPanel == \A i, j \in 1..Len(panels) : i # j => panels[i] # panels[j]
InOrder == written = [k \in 1..Len(written) |-> k - 1]
Done == todo = 0 /\ Len(written) = page + 1
AllWritten == Done => \A i \in 1..Len(panels) : panels[i].page \in {written[k] : k \in 1..Len(written)}
Report == (Emit /\ Done) => PrintT("@@" \o ToJson(lay))
=============================================================================
