------------------------------ MODULE AeroBook ------------------------------
(* The parasite drag build-ups: the contributions of every configuration     *)
(* and the inputs and options each contribution depends on.                  *)
EXTENDS TLC, FiniteSets, Sequences
LOCAL Flow == {"fltcond|Utrue", "fltcond|rho", "fltcond|T"}
LOCAL SW == "ac|geom|wing|S_ref"
LOCAL Fuselage == Flow \cup {SW, "ac|geom|fuselage|length", "ac|geom|fuselage|height", "ac|geom|fuselage|S_wet", "Q_fuselage", "fuselage_laminar_frac"}
LOCAL Surf(s) == Flow \cup {SW, "ac|geom|" \o s \o "|S_ref", "ac|geom|" \o s \o "|AR", "ac|geom|" \o s \o "|taper", "ac|geom|" \o s \o "|toverc", s \o "_laminar_frac"}
LOCAL Stab(s) == Surf(s) \cup {"Q_tail"}
LOCAL Wing == Surf("wing") \cup {"Q_wing"}
LOCAL Nacelle == Flow \cup {SW, "ac|geom|nacelle|length", "ac|geom|nacelle|S_wet", "ac|propulsion|num_engines", "FF_nacelle", "nacelle_laminar_frac"}
LOCAL Flap == {"ac|aero|takeoff_flap_deg", "ac|geom|wing|c4sweep", "flap_chord_frac", "Q_flap", "wing_area_flapped_frac"}
LOCAL Body == [fuselage |-> Fuselage, hstab |-> Stab("hstab"), vstab |-> Stab("vstab"), nacelle |-> Nacelle]
LOCAL Dirty == [flap |-> Flap, gear |-> {}]
Deps(c) == CASE c = "jet clean" -> [wing |-> Wing] @@ Body
             [] c = "jet takeoff" -> ([wing |-> Wing] @@ Body) @@ Dirty
             [] c = "tails clean" -> Body
             [] c = "tails takeoff" -> Body @@ Dirty
             [] c = "bwb clean" -> [nacelle |-> Nacelle]
             [] c = "bwb takeoff" -> [nacelle |-> Nacelle] @@ Dirty
Families == {"jet clean", "jet takeoff", "tails clean", "tails takeoff", "bwb clean", "bwb takeoff"}
LOCAL JetOpts == {"Q_fuselage", "Q_tail", "Q_wing", "FF_nacelle", "flap_chord_frac", "Q_flap", "wing_area_flapped_frac", "fuselage_laminar_frac", "hstab_laminar_frac", "vstab_laminar_frac", "wing_laminar_frac", "nacelle_laminar_frac"}
LOCAL BwbOpts == {"FF_nacelle", "flap_chord_frac", "Q_flap", "wing_area_flapped_frac", "nacelle_laminar_frac"}
Options(c) == IF c \in {"bwb clean", "bwb takeoff"} THEN BwbOpts ELSE JetOpts
Parts(c) == DOMAIN Deps(c)
Needs(c) == UNION {Deps(c)[p] : p \in Parts(c)}
Inputs(c) == Needs(c) \ Options(c)
Changes(c) == Inputs(c) \cup Options(c)
Idle(c) == Options(c) \ Needs(c)
=============================================================================
