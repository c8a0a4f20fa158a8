------------------------------ MODULE TraceLib ------------------------------
(* What every trace specification shares: the recorded events of the real    *)
(* code, and total verdicts.  A clause that does not hold is reported by     *)
(* name with its detail; the replay always consumes the whole trace.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils, F64

Trace == ndJsonDeserialize(IOEnv.TRACE)

Ok == <<>>
Chk(ok, clause, detail) == IF ok THEN Ok ELSE << <<clause, detail>> >>
\* numeric clauses: the recorded value must be what the specification computes
Near(act, exp, rt, at, clause) ==
    IF FClose(act, exp, rt, at) THEN Ok ELSE << <<clause, [recorded |-> act, specified |-> exp]>> >>
\* the same, relative to the largest magnitude in the vectors
NearN(act, exp, rt, at, clause) ==
    IF FCloseN(act, exp, rt, at) THEN Ok ELSE << <<clause, [recorded |-> act, specified |-> exp]>> >>

Each(n, Op(_)) == FlattenSeq([i \in 1..n |-> Op(i)])

Report(sid, fails) ==
    \A i \in 1..Len(fails) : PrintT("@F" \o ToJson([sid |-> sid, clause |-> fails[i][1], detail |-> fails[i][2]]))

\* an implicit model: settings tried, solutions found, solutions asked for
Solves(ev) == Chk(ev.found >= ev.need, "an implicit model finds its solution at ordinary settings", ev)

Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

\* constants a model holds itself, SI, until someone sets them: station settings
\* of a duct that change nothing, the library's coolant and cold plates, the
\* drag build-ups' allowances by configuration, the weight build-ups' fluids
Unset(ev) ==
    LET one == {"pressure_recovery_1", "pressure_recovery_2", "pressure_recovery_3", "bypass_start", "bypass_end"}
        nil == {"delta_p_1", "delta_p_2", "heat_in_1", "heat_in_2", "loss_factor_1", "CD_flap"}
        gear == IF Has(ev.o, "configuration") /\ ev.o.configuration = "takeoff" THEN (IF ev.c = "ParasiteDragCoefficient_BWB" THEN "0.01" ELSE "0.02") ELSE "0"
        val(n) == CASE n \in one -> "1"
                    [] n \in nil -> "0"
                    [] n = "cp" -> "1002.93"
                    [] n = "area_1" -> "0.0387096"
                    [] n = "area_nozzle" -> "0.03741928"
                    [] n = "convergence_hack" -> IF ev.c = "ImplicitCompressibleDuct_ExternalHX" THEN "-40" ELSE "-20"
                    [] n = "mdot_coolant" -> "0.1"
                    [] n = "rho_coolant" -> "997"
                    [] n = "coolant_mass" -> "10"
                    [] n = "channel_width" -> "0.001"
                    [] n = "channel_height" -> "0.02"
                    [] n = "channel_length" -> "0.2"
                    [] n = "n_parallel" -> "50"
                    [] n = "W_fluids" -> "20"
                    [] n = "structural_fudge" -> "1.6"
                    [] n = "FF_nacelle" -> Get(ev.o, n, "1.5")
                    [] n = "CD_landing_gear" -> gear
                    [] OTHER -> "none"
        bad == {n \in DOMAIN ev.v : val(n) # "none" /\ ~FClose(ev.v[n], val(n), "1e-9", 0)}
    IN Chk(bad = {}, "a constant nobody set has the library's value", [model |-> ev.c, values |-> [n \in bad |-> ev.v[n]]])

=============================================================================
