------------------------------ MODULE PhaseLaws ------------------------------
(* Flight segments: what holds at every node of a solved segment.  e.v has   *)
(* the recorded histories (SI), e.par the aircraft, e.P the profile.         *)
EXTENDS LawLib, MissionBook, Quadrature
Atm == INSTANCE AtmosLaws
R6 == "1e-6"
R7 == "1e-7"
V(e, n) == e.v[n]
One(e, n) == e.v[n][1]
Is(e, n) == n \in DOMAIN e.v
K(e) == Kind(e.P, e.n)
Len1(e) == Len(V(e, "thrust"))
DT(e) == One(e, "duration") // (Len1(e) - 1)
MG(e) == V(e, "weight") ** Grav
Wing(e) == One(e, "ac|geom|wing|S_ref")
Stall(e) == FSqrt((2 ** (One(e, "ac|weights|MTOW") ** Grav)) // (("1.225" ** Wing(e)) ** One(e, "ac|aero|CLmax_TO")))

\* ---- air data
Air(e) ==
    LET h == V(e, "fltcond|h")
        T == Atm!Temp(h) ++ V(e, "fltcond|TempIncrement")
        p == Atm!Press(h)
        rho == Atm!Rho(p, T)
        U == IF K(e) \in {"roll", "rotation"} THEN V(e, "fltcond|Utrue") ELSE Atm!Utrue(V(e, "fltcond|Ueas"), rho)
    IN Near(V(e, "fltcond|rho"), rho, R7, 0, "air density at the segment's altitude and temperature")
       \o Near(V(e, "fltcond|Utrue"), U, R7, 0, "true airspeed of the speed schedule")
       \o Near(V(e, "fltcond|q"), Atm!Q(rho, U), R7, 0, "dynamic pressure of the true airspeed")
\* ---- what the aircraft is asked and what it gives
Plant(e) ==
    LET p == e.par
        low == K(e) # "steady"
        lever == (V(e, "throttle") ** ((p.engines - 1) ++ V(e, "propulsor_active"))) // p.engines
    IN Near(V(e, "thrust"), (p.T0 ** lever) ** ((V(e, "fltcond|rho") // "1.225") ^^ p.lapse), R7, 0, "thrust is that of the segment's lever, engines running and density")
       \o Near(V(e, "drag"), (V(e, "fltcond|q") ** Wing(e)) ** ((IF low THEN p.cd0to ELSE p.cd0) ++ (p.k ** (V(e, "fltcond|CL") ^^ 2))), R7, 0, "drag is that of the segment's lift coefficient and dynamic pressure")
       \o Chk(e.told = Told(e.n), "the aircraft model is told the segment it is used in", [told |-> e.told])
Lift(e) == Near(V(e, "lift"), (V(e, "fltcond|q") ** Wing(e)) ** V(e, "fltcond|CL"), R7, 0, "lift is that of the lift coefficient")
Path(e) ==
    LET U == V(e, "fltcond|Utrue")
        vs == V(e, "fltcond|vs")
        gs == FSqrt((U ^^ 2) -- (vs ^^ 2))
    IN Near(V(e, "fltcond|groundspeed"), gs, R7, 0, "ground speed and vertical speed make up the true airspeed")
       \o NearN(V(e, "fltcond|singamma"), vs // U, R7, "1e-9", "the flight path climbs at the vertical speed")
       \o Near(V(e, "fltcond|cosgamma"), gs // U, R7, 0, "the flight path advances at the ground speed")
SinG(e) == V(e, "fltcond|vs") // V(e, "fltcond|Utrue")
CosG(e) == FSqrt(1 -- (SinG(e) ^^ 2))
\* net force along the path over mass; friction only with weight on the wheels
Accel(e) == ((V(e, "thrust") -- V(e, "drag")) -- (V(e, "braking") ** FMax(MG(e) -- V(e, "lift"), 0)) -- (MG(e) ** SinG(e))) // V(e, "weight")
AccelUp(e) == FMax(FMin((((V(e, "lift") ** CosG(e)) ++ ((V(e, "thrust") -- V(e, "drag")) ** SinG(e))) -- MG(e)) // V(e, "weight"), "2.5" ** Grav), FNeg(Grav))
Integral(e, q, rate, ini, clause) ==
    NearN(V(e, q), Hist("simpson", ini, V(e, rate), DT(e)), R7, R6, clause)

Steady(e) ==
    NearN(V(e, "thrust") // MG(e), ((V(e, "drag") ++ (MG(e) ** SinG(e))) ++ ((V(e, "weight") ** V(e, "zero_accel")) ++ (V(e, "braking") ** FMax(MG(e) -- V(e, "lift"), 0)))) // MG(e), R7, R7, "thrust balances drag and the weight along the path")
    \o Near(V(e, "lift"), MG(e) ** CosG(e), R7, 0, "lift balances the weight across the path")
    \o Near(V(e, "fltcond|CL"), (MG(e) ** CosG(e)) // (V(e, "fltcond|q") ** Wing(e)), R7, 0, "lift coefficient that balances the weight")
    \o Integral(e, "fltcond|h", "fltcond|vs", One(e, "fltcond|h_initial"), "altitude grows at the vertical speed")
    \o Integral(e, "range", "fltcond|groundspeed", One(e, "range_initial"), "range grows at the ground speed")
    \o Near(<<One(e, "fltcond|h_final"), One(e, "range_final")>>, <<Last(V(e, "fltcond|h")), Last(V(e, "range"))>>, R9, "1e-9", "final values are those of the last node")
\* the abandoned takeoff is integrated backwards from rest
Roll(e) ==
    NearN(V(e, "accel_horiz"), Accel(e), R7, R7, "acceleration is the net force over mass with rolling friction or braking")
    \o (IF e.n = "v1v0" THEN NearN(Reverse(V(e, "fltcond|Utrue")), Hist("simpson", One(e, "zero_speed"), FNeg(Reverse(V(e, "accel_horiz"))), DT(e)), R7, R6, "speed grows at the acceleration, to rest")
        ELSE Integral(e, "fltcond|Utrue", "accel_horiz", One(e, "fltcond|Utrue_initial"), "speed grows at the acceleration"))
    \o Integral(e, "range", "fltcond|groundspeed", IF Is(e, "range_initial") THEN One(e, "range_initial") ELSE 0, "range grows at the ground speed")
Rotation(e) ==
    NearN(V(e, "accel_horiz"), Accel(e), R7, R7, "acceleration is the net force over mass")
    \o NearN(V(e, "accel_vert"), AccelUp(e), R7, R7, "vertical acceleration is the net vertical force over mass")
    \o Integral(e, "fltcond|Utrue", "accel_horiz", One(e, "fltcond|Utrue_initial"), "speed grows at the acceleration")
    \o Integral(e, "range", "fltcond|groundspeed", One(e, "range_initial"), "range grows at the ground speed")
    \o Integral(e, "fltcond|vs", "accel_vert", 0, "vertical speed grows at the vertical acceleration")
    \o Integral(e, "fltcond|h", "fltcond|vs", 0, "altitude grows at the vertical speed")
Balance(e) ==
    Air(e) \o Plant(e)
    \o (IF K(e) # "gamma" THEN
        (IF K(e) = "simplified" THEN <<>> ELSE Path(e) \o Lift(e))
        \o (CASE K(e) = "steady" -> Steady(e) [] K(e) = "roll" -> Roll(e) [] K(e) = "rotation" -> Rotation(e)
              [] K(e) = "simplified" -> Near(V(e, "fltcond|CL"), MG(e) // (V(e, "fltcond|q") ** Wing(e)), R7, 0, "lift coefficient that balances the weight")) ELSE <<>>)

\* ---- takeoff
Sub(e, a, b) == V(e, a)[1] -- V(e, b)[1]
Gamma(e, m) == FAsin((V(e, "thrust") -- V(e, "drag")) // (m ** Grav))
Arc(U, gam, hobs, lf) ==
    LET R == (U ^^ 2) // ((lf -- 1) ** Grav)
        ht == R ** (1 -- FCos(gam))
    IN IF FLt(hobs, ht) THEN <<FSqrt((R ^^ 2) -- ((R -- hobs) ^^ 2)), hobs>> ELSE <<R ** FSin(gam), ht>>
Takeoff(e) ==
    LET k == K(e) IN
    \* the default controls of the segment unless the user sets others
    (IF "braking" \in DOMAIN e.v THEN NearN(V(e, "braking"), FRep(Get(e.set, "braking", Braking(e.n)), Len1(e)), R9, "1e-4", "rolling friction or braking of the segment") ELSE <<>>)
    \o NearN(V(e, "propulsor_active"), FRep(Active(e.n), Len1(e)), R9, "1e-4", "one engine fails at the decision speed")
    \o NearN(V(e, "throttle"), FRep(Get(e.set, "throttle", Lever(e.n)), Len1(e)), R9, "1e-4", "lever of the segment")
    \o (IF k \in {"roll", "simplified"} THEN Near(V(e, "takeoff|vr"), "1.1" ** <<Stall(e)>>, R6, 0, "rotation speed over stall speed") ELSE <<>>)
    \o (CASE k = "roll" ->
               NearN(V(e, "fltcond|vs") \o V(e, "fltcond|h"), FRep(0, Len1(e)) \o FRep(Get(e.set, "fltcond|h", 0), Len1(e)), R9, "1e-4", "the aircraft rolls on the runway")
               \o NearN(V(e, "fltcond|CL"), FRep("0.1", Len1(e)), R9, "1e-5", "rolling lift coefficient")
               \o (CASE EndsAtV1(e.n) -> Near(<<V(e, "fltcond|Utrue")[1], Last(V(e, "fltcond|Utrue"))>>, <<2, e.v1>>, R7, "1e-4", "accelerates from standstill to decision speed")
                     [] e.n = "v1vr" -> Near(<<V(e, "fltcond|Utrue")[1], Last(V(e, "fltcond|Utrue"))>>, <<e.v1, "1.1" ** Stall(e)>>, R7, "1e-4", "accelerates from decision to rotation speed")
                     [] e.n = "v1v0" -> Near(<<V(e, "fltcond|Utrue")[1], Last(V(e, "fltcond|Utrue"))>>, <<e.v1, 2>>, R7, "1e-4", "brakes from decision speed to rest"))
          [] k = "rotation" ->
               Near(<<Last(V(e, "fltcond|h"))>>, <<Get(e.set, "h_obs", "10.668")>>, R7, "1e-4", "rotation ends at the obstacle height")
               \o Near(V(e, "fltcond|CL"), FRep(Get(e.set, "CL_rotate_mult", "0.83") ** One(e, "ac|aero|CLmax_TO"), Len1(e)), R9, "1e-4", "lift coefficient held in rotation")
          [] k = "simplified" ->
               LET n == Len1(e)
                   gam == Gamma(e, V(e, "weight"))
                   U == V(e, "fltcond|Utrue")
                   arc == Arc(U[1], gam[1], "10.66", "1.2")
                   sc == (Get(e.set, "hobs_arc", "10.66") -- arc[2]) // FTan(gam[n])
               IN Near(V(e, "takeoff|v2"), "1.2" ** <<Stall(e)>>, R6, 0, "takeoff safety speed over stall speed")
                  \o Near(V(e, "fltcond|Ueas"), FLinspace("1.1" ** Stall(e), "1.2" ** Stall(e), n), R6, 0, "speeds up evenly from rotation to takeoff safety speed")
                  \o Near(V(e, "gamma"), gam, R7, 0, "climb angle from excess thrust")
                  \o Near(<<One(e, "s_transition"), One(e, "h_transition"), One(e, "t_transition")>>, <<arc[1], arc[2], arc[1] // U[1]>>, R7, 0, "transition follows a circular arc")
                  \o NearN(<<One(e, "s_climb"), One(e, "t_climb")>>, <<sc, sc // U[n]>>, R7, R6, "climbs straight to the obstacle height")
                  \o NearN(<<One(e, "range_final"), One(e, "duration")>>, <<One(e, "range_initial") ++ (arc[1] ++ sc), (arc[1] // U[1]) ++ (sc // U[n])>>, R7, R6, "takeoff distance and time add up")
                  \o NearN(V(e, "range"), FLinspace(One(e, "range_initial"), One(e, "range_final"), n), R7, R6, "distance runs evenly")
          [] k = "gamma" ->
               Near(V(e, "gamma"), Gamma(e, One(e, "ac|weights|MTOW")), R7, 0, "engine-out climb angle from excess thrust at takeoff weight")
               \o Near(V(e, "fltcond|Ueas"), "1.2" ** <<Stall(e)>>, R6, 0, "engine-out climb at takeoff safety speed")
               \o Near(V(e, "fltcond|CL"), (One(e, "ac|weights|MTOW") ** Grav) // (V(e, "fltcond|q") ** Wing(e)), R7, 0, "engine-out climb carries the takeoff weight")
          [] OTHER -> <<>>)
\* the decision: distances equal, or limited by the rotation speed with stopping still the shorter
Decided(m) ==
    Chk(\/ FClose(m.go, m.stop, R6, 0)
        \/ (FClose(m.v1, m.vr, R6, 0) /\ FLe(m.stop, m.go ** "1.000001")), "accelerate-stop and accelerate-go distances are equal unless the rotation speed limits the decision speed", [v1 |-> m.v1, vr |-> m.vr, go |-> m.go, stop |-> m.stop])
    \o Chk(FLe(m.v1, m.vr ** "1.000001") /\ FLe(10, m.v1) /\ FLe(m.v1, 150), "decision speed within its limits", [v1 |-> m.v1, vr |-> m.vr])

\* ---- the mission: q of the next segment starts where b's ended
Ended(b, q) == CASE q = "speed" -> Last(V(b, "fltcond|Utrue")) [] q = "h" -> (IF Is(b, "fltcond|h_final") THEN One(b, "fltcond|h_final") ELSE Last(V(b, "fltcond|h"))) [] q = "range" -> (IF Is(b, "range_final") THEN One(b, "range_final") ELSE Last(V(b, "range")))
Started(e, q) == CASE q = "speed" -> V(e, "fltcond|Utrue")[1] [] q = "h" -> V(e, "fltcond|h")[1] [] q = "range" -> V(e, "range")[1]
Handed(S, e, q, at) == IF Takes(e.P, e.n, q) THEN Near(<<Started(e, q)>>, <<Ended(S[Before(e.P, e.n)], q)>>, R7, at, q \o " is continuous from segment to segment") ELSE <<>>
Aircraft(S, e) ==
    LET b == Before(e.P, e.n)
        f0 == IF b = "" THEN 0 ELSE Last(V(S[b], "fuel_used"))
        q0 == IF b = "" THEN 0 ELSE Last(V(S[b], "heat"))
    IN IF K(e) = "gamma" THEN <<>> ELSE
       NearN(<<V(e, "fuel_used")[1]>>, <<f0>>, R7, R6, "fuel used is continuous from segment to segment")
       \o NearN(<<V(e, "heat")[1]>>, <<q0>>, R7, R6, "every state of the aircraft is continuous from segment to segment")
       \o NearN(V(e, "fuel_used"), Hist("simpson", f0, V(e, "fuel_flow"), DT(e)), R7, R6, "fuel used grows at the fuel flow over the segment's duration")
       \o NearN(V(e, "heat"), Hist("simpson", q0, e.par.heat ** V(e, "thrust"), DT(e)), R7, R6, "a state of the aircraft grows at its rate over the segment's duration")
       \o Near(V(e, "weight"), One(e, "ac|weights|MTOW") -- V(e, "fuel_used"), R9, 0, "weight is takeoff weight minus the fuel burned so far")
Closed(S, m) ==
    LET P == m.P
        end(n, q) == Ended(S[n], q)
        nearby(a, b, c) == Near(<<a>>, <<b>>, R7, "1e-5", c)
        p(n) == m.par[n]
        first == Flown(P)[1]
    IN nearby(Started(S[first], "range"), 0, "the mission starts at no range")
       \o (IF StartsAt(P, "climb") # "" THEN nearby(Started(S["climb"], "h"), p("takeoff|h"), "climb starts from the takeoff altitude") ELSE <<>>)
       \o nearby(end("climb", "h"), p("cruise|h0"), "climb ends at the cruise altitude")
       \o nearby(end("descent", "h"), p("takeoff|h"), "descent ends at the landing altitude")
       \o nearby(end("descent", "range"), p("mission_range"), "the main mission covers the mission range")
       \o (IF P.res THEN nearby(end("reserve_climb", "h"), p("reserve|h0"), "reserve climb ends at the reserve altitude")
                      \o nearby(end("reserve_descent", "h"), p("takeoff|h"), "reserve descent ends at the landing altitude")
                      \o nearby(end("reserve_descent", "range") -- Started(S["reserve_climb"], "range"), p("reserve_range"), "the reserve segments cover the reserve range")
                      \o nearby(Started(S["loiter"], "h"), p("loiter|h0"), "loiter is flown at the loiter altitude")
                      \o nearby(One(S["loiter"], "duration"), p("loiter_duration"), "loiter lasts the requested time")
           ELSE <<>>)

\* ---- the components on their own
Inside(e) == (X(e, "fltcond|Utrue") ^^ 2) -- (X(e, "fltcond|vs") ^^ 2)
ComponentLaw(e) ==
    CASE e.c = "Groundspeeds" ->
           LET neg == FStepLt(Inside(e), 0)
               gs == FSqrt(FWhere(neg, "0.01", Inside(e)))
           IN Near(Y(e, "fltcond|groundspeed"), gs, R9, "1e-12", "ground speed is what the vertical speed leaves of the airspeed")
              \o Near(Y(e, "fltcond|cosgamma"), gs // X(e, "fltcond|Utrue"), R9, "1e-12", "the flight path advances at the ground speed")
              \o NearN(Y(e, "fltcond|singamma"), FWhere(neg, 1, X(e, "fltcond|vs") // X(e, "fltcond|Utrue")), R9, "1e-12", "the flight path climbs at the vertical speed, at most straight up")
      [] e.c = "HorizontalAcceleration" ->
           LET m == X(e, "weight") IN
           NearN(Y(e, "accel_horiz"), ((X(e, "thrust") -- X(e, "drag")) -- ((X(e, "braking") ** FMax((m ** Grav) -- X(e, "lift"), 0)) ++ ((m ** Grav) ** X(e, "fltcond|singamma")))) // m, R9, R9, "acceleration is the net force over mass")
      [] e.c = "VerticalAcceleration" ->
           LET m == X(e, "weight") IN
           NearN(Y(e, "accel_vert"), FMax(FMin((((X(e, "lift") ** X(e, "fltcond|cosgamma")) ++ ((X(e, "thrust") -- X(e, "drag")) ** X(e, "fltcond|singamma"))) -- (m ** Grav)) // m, "2.5" ** Grav), FNeg(Grav)), R9, R9, "vertical acceleration is the net force over mass within -1 to 2.5 g")
      [] e.c = "SteadyFlightCL" -> Near(Y(e, "fltcond|CL"), ((X(e, "weight") ** Grav) ** X(e, "fltcond|cosgamma")) // (X(e, "fltcond|q") ** X(e, "ac|geom|wing|S_ref")), R9, 0, "lift coefficient that balances the weight across the path")
      [] e.c = "FlipVectorComp" -> Near(Y(e, "vec_out"), (IF Opt(e, "negative", FALSE) THEN -1 ELSE 1) ** Reverse(X(e, "vec_in")), R9, "1e-12", "the vector is turned around")
      [] e.c = "ClimbAngleComp" -> Near(Y(e, "gamma"), FAsin((X(e, "thrust") -- X(e, "drag")) // (X(e, "weight") ** Grav)), R9, "1e-12", "climb angle from excess thrust")
      [] e.c = "TakeoffTransition" ->
           LET a == Arc(X(e, "fltcond|Utrue")[1], X(e, "gamma")[1], Opt(e, "h_obstacle", "10.66"), Opt(e, "load_factor", "1.2"))
           IN Near(Y(e, "s_transition") \o Y(e, "h_transition") \o Y(e, "t_transition"), <<a[1], a[2], a[1] // X(e, "fltcond|Utrue")[1]>>, R9, 0, "transition follows a circular arc, at most to the obstacle height")
      [] e.c = "TakeoffClimb" ->
           LET s == (Opt(e, "h_obstacle", "10.66") -- X(e, "h_transition")) // FTan(X(e, "gamma"))
           IN Near(Y(e, "s_climb") \o Y(e, "t_climb"), s \o (s // X(e, "fltcond|Utrue")), R9, "1e-9", "climbs straight to the obstacle height")
\* a proposed decision speed: is it taken for a solution?
Point(e) == Chk(e.zero = e.solution, "a decision speed is a solution when distances are equal, or at the rotation speed when stopping is still the shorter", [vr |-> e.vr, v1 |-> e.v1, go |-> e.go, stop |-> e.stop])
=============================================================================
