----------------------------- MODULE SurrogateMC -----------------------------
(* Components that train a surrogate on a grid of analyses and share their   *)
(* last training data with every other instance in the process.  Problems    *)
(* hold one or two instances; geometries change, runs train or reuse,        *)
(* training can fail, problems are set up again.  The data may be reused only*)
(* when everything that determines it (training grid, mesh size, geometry)   *)
(* is the same, and is kept only when training succeeded: then every run     *)
(* returns the data of the geometry and configuration then current.  hist is *)
(* hidden by VIEW: every transition of the state graph is emitted once, with *)
(* a shortest program leading to it.                                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Geos, MaxOps, Emit
VARIABLES plan, geo, out, ready, cache, armed, hist
vars == <<plan, geo, out, ready, cache, armed, hist>>
View == <<plan, geo, out, ready, cache, armed>>
Probs == {1, 2}
\* a configuration: training grid and mesh size
A == [grid |-> 1, size |-> 1]
B == [grid |-> 2, size |-> 1]
C == [grid |-> 1, size |-> 2]
Plans == {<<A>>, <<B>>, <<C>>, <<A, A>>, <<A, B>>, <<A, C>>}
Nothing == [grid |-> 0, size |-> 0, geo |-> 0]
Data(c, g) == [grid |-> c.grid, size |-> c.size, geo |-> g]
Init == /\ plan \in [Probs -> Plans] /\ Len(plan[2]) = 1
        /\ geo = [p \in Probs |-> [i \in 1..Len(plan[p]) |-> 1]]
        /\ out = [p \in Probs |-> [i \in 1..Len(plan[p]) |-> Nothing]]
        /\ ready = {} /\ cache = Nothing /\ armed = FALSE /\ hist = <<>>
Log(op) == hist' = Append(hist, op) /\ Len(hist) < MaxOps
Setup(p) == /\ ready' = ready \cup {p} /\ cache' = Nothing
            /\ geo' = [geo EXCEPT ![p] = [i \in 1..Len(plan[p]) |-> 1]]
            /\ out' = [out EXCEPT ![p] = [i \in 1..Len(plan[p]) |-> Nothing]]
            /\ UNCHANGED <<plan, armed>> /\ Log([op |-> "setup", p |-> p])
Set(p, i, g) == /\ p \in ready /\ geo[p][i] # g
                /\ geo' = [geo EXCEPT ![p][i] = g]
                /\ UNCHANGED <<plan, out, ready, cache, armed>> /\ Log([op |-> "set", p |-> p, i |-> i, g |-> g])
Arm == /\ ~armed /\ ready # {} /\ armed' = TRUE /\ UNCHANGED <<plan, geo, out, ready, cache>> /\ Log([op |-> "arm"])
\* instances run one after the other; <<cache, outs, failed>>
RECURSIVE Fold(_, _, _, _, _)
Fold(p, i, c, o, arm) ==
    IF i > Len(plan[p]) THEN [c |-> c, o |-> o, arm |-> arm, ok |-> TRUE]
    ELSE LET want == Data(plan[p][i], geo[p][i]) IN
         IF c = want THEN Fold(p, i + 1, c, [o EXCEPT ![i] = c], arm)
         ELSE IF arm THEN [c |-> c, o |-> o, arm |-> FALSE, ok |-> FALSE]
         ELSE Fold(p, i + 1, want, [o EXCEPT ![i] = want], arm)
Run(p) == /\ p \in ready
          /\ LET r == Fold(p, 1, cache, out[p], armed)
             IN cache' = r.c /\ out' = [out EXCEPT ![p] = r.o] /\ armed' = r.arm
                /\ Log([op |-> "run", p |-> p, ok |-> r.ok])
          /\ UNCHANGED <<plan, geo, ready>>
Current(p) == \A i \in 1..Len(plan[p]) : out[p][i] = Data(plan[p][i], geo[p][i])
\* sensitivities of instance i, possibly after another instance trained
Slope(p, i) == /\ p \in ready /\ Current(p) /\ ~armed
               /\ cache' = Data(plan[p][i], geo[p][i])
               /\ UNCHANGED <<plan, geo, out, ready, armed>> /\ Log([op |-> "slope", p |-> p, i |-> i])
Next == Arm \/ (\E p \in Probs : Setup(p) \/ Run(p) \/ (\E i \in 1..Len(plan[p]) : Slope(p, i) \/ (\E g \in Geos : Set(p, i, g))))
Spec == Init /\ [][Next]_vars
LastOk(op) == op.op = "run" /\ op.ok
Fresh == (hist # <<>> /\ LastOk(hist[Len(hist)])) => Current(hist[Len(hist)].p)
CacheTrue == cache = Nothing \/ \E p \in Probs : \E i \in 1..Len(plan[p]) : cache.grid = plan[p][i].grid /\ cache.size = plan[p][i].size /\ cache.geo \in Geos
\* one line per transition that ends in a run or a request for slopes
Worth == hist' # <<>> /\ hist'[Len(hist')].op \in {"run", "slope"} /\ Len(hist') >= 4
Report == [][(Emit /\ Worth) => PrintT("@@" \o ToJson([plan |-> <<plan[1], plan[2]>>, ops |-> hist']))]_vars
=============================================================================
