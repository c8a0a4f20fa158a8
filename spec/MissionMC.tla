------------------------------ MODULE MissionMC ------------------------------
(* Abstract missions over every profile: segment lengths are chosen freely,  *)
(* states are handed over as MissionBook says, and a mission counts as solved *)
(* when every segment's ending condition holds.  Checked: what a user is      *)
(* promised of a solved mission follows from the hand-overs and endings.      *)
EXTENDS MissionBook, TLC, Json
CONSTANTS Alts, Elevs, Ranges, ResRanges, Loiters, MaxT
VARIABLES P, par, k, log, done
vars == <<P, par, k, log, done>>
Init == /\ P \in Profiles
        /\ par \in [elev : (IF P.to = "none" THEN Elevs ELSE {0}), h0 : Alts, range : Ranges, resh : (IF P.res THEN Alts ELSE {0}), resr : (IF P.res THEN ResRanges ELSE {0}),
                    loith : (IF P.res THEN Elevs \cup {1} ELSE {0}), loit : (IF P.res THEN Loiters ELSE {0})]
        /\ par.elev < par.h0 /\ (P.res => par.elev < par.resh)
        /\ k = 1 /\ log = <<>> /\ done = FALSE
Name == Flown(P)[k]
Prev == IF k = 1 THEN [r1 |-> 0, h1 |-> 0, f1 |-> 0, h0 |-> 0, r0 |-> 0, f0 |-> 0, n |-> "", t |-> 0] ELSE log[k - 1]
Param(s) == CASE s = "takeoff|h" -> par.elev [] s = "cruise|h0" -> par.h0 [] s = "reserve|h0" -> par.resh [] s = "loiter|h0" -> par.loith
Start == IF Takes(P, Name, "h") THEN Prev.h1 ELSE IF StartsAt(P, Name) # "" THEN Param(StartsAt(P, Name)) ELSE par.elev
DH(n) == CASE n \in {"climb", "reserve_climb"} -> 1 [] n \in {"descent", "reserve_descent"} -> -1 [] OTHER -> 0
DR(n) == CASE n \in {"cruise"} -> 2 [] OTHER -> 1
Burn(n) == CASE n \in {"climb", "reserve_climb"} -> 2 [] OTHER -> 1
Fly == /\ ~done /\ k <= Len(Flown(P))
       /\ \E t \in (IF Kind(P, Name) = "steady" THEN 0..MaxT ELSE {1}) :
            LET x == [n |-> Name, t |-> t, h0 |-> Start, h1 |-> Start + t * DH(Name), f0 |-> Prev.f1, f1 |-> Prev.f1 + t * Burn(Name),
                      r0 |-> IF Takes(P, Name, "range") THEN Prev.r1 ELSE 0, r1 |-> (IF Takes(P, Name, "range") THEN Prev.r1 ELSE 0) + t * DR(Name)]
            IN /\ Ends(P, Name) # "" => x.h1 = Param(Ends(P, Name))
               /\ Name = "descent" => x.r1 = par.range
               /\ Name = "reserve_descent" => x.r1 - log[k - 4 + 1].r1 = par.resr
               /\ Name = "loiter" => t = par.loit
               /\ log' = Append(log, x)
       /\ k' = k + 1 /\ UNCHANGED <<P, par, done>>
Finish == /\ ~done /\ k > Len(Flown(P)) /\ done' = TRUE /\ UNCHANGED <<P, par, k, log>>
          /\ PrintT("@@" \o ToJson([P |-> P, par |-> par]))
Next == Fly \/ Finish
Spec == Init /\ [][Next]_vars
Seg(n) == log[CHOOSE i \in 1..Len(log) : log[i].n = n]
Length(n) == Seg(n).r1 - Seg(n).r0
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
\* the promises
Promises == done =>
    /\ Sum([i \in 1..Len(log) |-> log[i].r1 - log[i].r0], {i \in 1..Len(log) : log[i].n \in {"groundroll", "v0v1", "v1vr", "rotate", "climb", "cruise", "descent"}}) = par.range
    /\ Seg("climb").h1 = par.h0 /\ Seg("cruise").h0 = par.h0 /\ Seg("cruise").h1 = par.h0 /\ Seg("descent").h1 = par.elev
    /\ \A i \in 2..Len(log) : log[i].f0 = log[i - 1].f1 /\ log[i].r0 = log[i - 1].r1
    /\ log[Len(log)].f1 = Sum([i \in 1..Len(log) |-> log[i].f1 - log[i].f0], 1..Len(log))
    /\ P.res => /\ Length("reserve_climb") + Length("reserve_cruise") + Length("reserve_descent") = par.resr
                /\ Seg("reserve_cruise").h0 = par.resh /\ Seg("reserve_cruise").h1 = par.resh
                /\ Seg("loiter").h0 = par.loith /\ Seg("loiter").h1 = par.loith /\ Seg("loiter").t = par.loit
=============================================================================
