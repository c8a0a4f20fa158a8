------------------------------- MODULE DuctLaws -------------------------------
(* One-dimensional compressible duct flow and the offset-strip-fin heat      *)
(* exchanger.  Every relation is stated on its own: stagnation relations,    *)
(* continuity, energy, momentum; effectiveness-NTU; Manglik-Bergles data.    *)
EXTENDS LawLib
Gam(e) == Opt(e, "gamma", "1.4")
Rg(e) == Opt(e, "R", "287.05")
Sq(a) == a ** a
\* 1 + (gamma - 1)/2 M^2
Stag(g, M) == 1 ++ (((g -- 1) // 2) ** Sq(M))
PRat(g, M) == FPow(Stag(g, M), g // (g -- 1))
Sound(g, R, T) == FSqrt((g ** R) ** T)
Crit(g) == FPow(2 // (g ++ 1), g // (g -- 1))
\* Mach number of an exit whose pressure ratio is npr, choked below the critical one
ExitMach(g, npr) == FWhere(FStepLe(npr, Crit(g)), "1", FSqrt((2 // (g -- 1)) ** (FPow(npr, (1 -- g) // g) -- 1)))
Dyn(mdot, rho, A) == ("0.5" ** Sq(mdot)) // (rho ** Sq(A))
N(a, x, c) == NearN(a, x, "1e-9", "1e-12", c)
\* converged implicit quantities
C7(a, x, c) == NearN(a, x, "1e-7", "1e-10", c)

Station(s, g, R, c) ==
       C7(s.Tt_out, s.Tt_in ++ (s.heat_in // (s.cp ** s.mdot)), "a station changes total temperature by heat over mdot cp")
    \o C7(s.pt_out, ((s.pt_in ** s.pressure_recovery) -- (Dyn(s.mdot, s.rho, s.area) ** s.dynamic_pressure_loss_factor)) ++ s.delta_p, "a station changes total pressure by its losses and gains")
    \o C7(s.T ** Stag(g, s.M), s.Tt_out, "static and total temperature are isentropic")
    \o C7(s.p ** PRat(g, s.M), s.pt_out, "static and total pressure are isentropic")
    \o C7((s.rho ** R) ** s.T, s.p, "duct density is the ideal gas's")
    \o C7(s.a, Sound(g, R, s.T), "duct speed of sound is the perfect gas's")
    \o C7(((s.rho ** s.M) ** s.a) ** s.area, s.mdot, "mass flow is density times speed times area at every station")
Intake(s, g, R, eta) ==
    LET M == s.Utrue // Sound(g, R, s.T) IN
       N(s.Tt, s.T ** Stag(g, M), "inlet total temperature is the free stream's")
    \o N(s.pt, eta ** (s.p ** PRat(g, M)), "inlet total pressure is the recovered free stream's")
\* s: nozzle with pt_in, Tt, p_exit, area, mdot, dynamic_pressure_loss_factor
Outlet(s, g, R) ==
    LET pt == s.pt_in -- (Dyn(s.mdot, s.rho, s.area) ** s.dynamic_pressure_loss_factor)
        M == ExitMach(g, s.p_exit // pt)
        T == s.Tt // Stag(g, M)
        p == pt // PRat(g, M)
        rho == p // (R ** T)
    IN C7(s.pt, pt, "nozzle total pressure is the upstream one less its loss")
    \o C7(s.M, M, "nozzle Mach number follows its pressure ratio and chokes at one")
    \o C7(s.T, T, "nozzle temperature is isentropic") \o C7(s.p, p, "nozzle pressure is isentropic") \o C7(s.rho, rho, "nozzle density is the ideal gas's")
    \o C7(s.mdot_actual, ((rho ** M) ** Sound(g, R, T)) ** s.area, "nozzle flow is density times speed times area")
Force(F, mdot, U, pinf, A, pn, rho, cfg) ==
    NearN(F, ((cfg ** (Sq(mdot) // (A ** rho))) -- (mdot ** U)) ++ ((cfg ** A) ** (pn -- pinf)), "1e-9", "1e-9" ** FMaxOf(FAbs(mdot ** U)), "net force is momentum out less momentum in plus the nozzle's pressure excess")
\* ---- heat exchanger
OffsetFin(re, al, de, ga) ==
    LET j == ("0.6522" ** FPow(re, "-0.5403")) ** ((FPow(al, "-0.1541") ** FPow(de, "0.1499")) ** FPow(ga, "-0.0678"))
        jc == 1 ++ (("5.269e-5" ** FPow(re, "1.340")) ** ((FPow(al, "0.504") ** FPow(de, "0.456")) ** FPow(ga, "-1.055")))
        f == ("9.6243" ** FPow(re, "-0.7422")) ** ((FPow(al, "-0.1856") ** FPow(de, "0.3053")) ** FPow(ga, "-0.2659"))
        fc == 1 ++ (("7.669e-8" ** FPow(re, "4.429")) ** ((FPow(al, "0.920") ** FPow(de, "3.767")) ** FPow(ga, "0.236")))
    IN [j |-> j ** FPow(jc, "0.1"), f |-> f ** FPow(fc, "0.1")]
\* geometry from the channel and stack dimensions (x: inputs)
Geometry(x) ==
    LET t == x.fin_thickness
        wc == x.channel_width_cold
        hc == x.channel_height_cold
        lc == x.fin_length_cold
        wh == x.channel_width_hot
        hh == x.channel_height_hot
        lh == x.fin_length_hot
        nt == x.n_tall
        width == x.n_wide_cold ** (wc ++ t)
        len == x.n_long_cold ** lc
        height == nt ** ((hc ++ hh) ++ (2 ** (t ++ x.plate_thickness)))
        \* channels across and fins along the hot side, whose flow runs along the width
        nwh == len // (wh ++ t)
        nlh == width // lh
        cellsC == (x.n_wide_cold ** x.n_long_cold) ** nt
        cellsH == (nwh ** nlh) ** nt
        metal == ((cellsC ** (t ** lc)) ** ((wc ++ hc) ++ t)) ++ ((cellsH ** (t ** lh)) ** ((wh ++ hh) ++ t))
        plates == (2 ** nt) ** ((x.plate_thickness ** len) ** width)
        case == (2 ** x.case_thickness) ** (len ** (height ++ width))
    IN [height_overall |-> height, width_overall |-> width, length_overall |-> len, frontal_area |-> width ** height,
        dh_cold |-> ((4 ** wc) ** (hc ** lc)) // ((2 ** (((wc ** lc) ++ (hc ** lc)) ++ (t ** hc))) ++ (t ** wc)),
        dh_hot |-> (4 ** (wh ** hh)) // (2 ** (wh ++ hh)),
        xs_area_cold |-> ((wc ** hc) ** x.n_wide_cold) ** nt, xs_area_hot |-> ((wh ** hh) ** nwh) ** nt,
        heat_transfer_area_cold |-> cellsC ** ((2 ** lc) ** (wc ++ hc)), heat_transfer_area_hot |-> cellsH ** ((2 ** lh) ** (wh ++ hh)),
        fin_area_ratio_cold |-> hc // (hc ++ wc), fin_area_ratio_hot |-> hh // (hh ++ wh),
        contraction_ratio_cold |-> (wc // (wc ++ t)) ** (hc // ((hc ++ hh) ++ (2 ** (t ++ x.plate_thickness)))),
        contraction_ratio_hot |-> (wh // (wh ++ t)) ** (hh // ((hc ++ hh) ++ (2 ** (t ++ x.plate_thickness)))),
        alpha_cold |-> wc // hc, alpha_hot |-> wh // hh, delta_cold |-> t // lc, delta_hot |-> t // lh, gamma_cold |-> t // wc, gamma_hot |-> t // wh,
        component_weight |-> ((metal ++ plates) ++ case) ** x.material_rho]
GeoNames == <<"height_overall", "width_overall", "length_overall", "frontal_area", "dh_cold", "dh_hot", "xs_area_cold", "xs_area_hot", "heat_transfer_area_cold", "heat_transfer_area_hot", "fin_area_ratio_cold", "fin_area_ratio_hot",
              "contraction_ratio_cold", "contraction_ratio_hot", "alpha_cold", "alpha_hot", "delta_cold", "delta_hot", "gamma_cold", "gamma_hot", "component_weight">>
GeoLaw(x, y) == LET g == Geometry(x) IN Each(Len(GeoNames), LAMBDA i : Near(y[GeoNames[i]], g[GeoNames[i]], "1e-8", 0, "heat exchanger geometry and weight follow channel and stack dimensions"))
FinEta(h, ratio, H, t, k) == LET mL == FSqrt((2 ** h) // (k ** t)) ** (H // 2) IN 1 -- (ratio ** (1 -- (FTanh(mL) // mL)))
Overall(hc, Ac, ec, hh, Ah, eh, fc, fh) == 1 // ((((1 // hc) ++ fc) // (Ac ** ec)) ++ (((1 // hh) ++ fh) // (Ah ** eh)))
CrossEff(ntu, cr) == 1 -- FExp((FPow(ntu, "0.22") // cr) ** (FExp(FNeg(cr ** FPow(ntu, "0.78"))) -- 1))
CMin(a, b) == FMin(a, b)
CMax(a, b) == FMax(a, b)
Loss(f, mdot, A, rho, dh, L, kc, ke) == FNeg(("0.5" ** (Sq(mdot // A) // rho)) ** ((kc ++ ke) ++ (((4 ** f) ** L) // dh)))
\* a whole exchanger from its inputs x to its outputs y; g geometry
Exchanger(x, y, g) ==
    LET side(m, xs, dh, mu, k, cp, al, de, ga) ==
            LET re == (m ** dh) // (xs ** mu)
                d == OffsetFin(re, al, de, ga)
            IN [f |-> d.f, h |-> ((d.j ** re) ** FPow((cp ** mu) // k, 1 // 3)) ** (k // dh)]
        c == side(x.mdot_cold, g.xs_area_cold, g.dh_cold, x.mu_cold, x.k_cold, x.cp_cold, g.alpha_cold, g.delta_cold, g.gamma_cold)
        h == side(x.mdot_hot, g.xs_area_hot, g.dh_hot, x.mu_hot, x.k_hot, x.cp_hot, g.alpha_hot, g.delta_hot, g.gamma_hot)
        ua == Overall(c.h, g.heat_transfer_area_cold, FinEta(c.h, g.fin_area_ratio_cold, x.channel_height_cold, x.fin_thickness, x.material_k),
                      h.h, g.heat_transfer_area_hot, FinEta(h.h, g.fin_area_ratio_hot, x.channel_height_hot, x.fin_thickness, x.material_k), 0, 0)
        Cc == x.mdot_cold ** x.cp_cold
        Ch == x.mdot_hot ** x.cp_hot
        q == (CrossEff(ua // CMin(Cc, Ch), CMin(Cc, Ch) // CMax(Cc, Ch)) ** CMin(Cc, Ch)) ** (x.T_in_hot -- x.T_in_cold)
    IN NearN(y.heat_transfer, q, "1e-7", "1e-9", "heat exchanged follows the effectiveness of its surfaces")
    \o Near(y.delta_p_cold, Loss(c.f, x.mdot_cold, g.xs_area_cold, x.rho_cold, g.dh_cold, g.length_overall, "0.3", "-0.1"), "1e-7", 0, "cold pressure drop follows friction over the cold flow length")
    \o Near(y.delta_p_hot, Loss(h.f, x.mdot_hot, g.xs_area_hot, x.rho_hot, g.dh_hot, g.width_overall, "0.3", "-0.1"), "1e-7", 0, "hot pressure drop follows friction over the hot flow length")
\* heat balance and limits, whatever the surfaces
ExBalance(x, y) ==
    LET Cc == x.mdot_cold ** x.cp_cold
        Ch == x.mdot_hot ** x.cp_hot
        scale == "1e-10" ** FMaxOf(FAbs((Cc ++ Ch) ** x.T_in_hot))
    IN NearN(Ch ** (x.T_in_hot -- y.T_out_hot), y.heat_transfer, "1e-9", scale, "heat leaves the hot side")
    \o NearN(Cc ** (y.T_out_cold -- x.T_in_cold), y.heat_transfer, "1e-9", scale, "heat enters the cold side")
    \o Chk(FAllLe(FAbs(y.heat_transfer), FAbs(CMin(Cc, Ch) ** (x.T_in_hot -- x.T_in_cold)) ** "1.000000001"), "heat never exceeds the limit of the smaller stream", y.heat_transfer)
    \o Chk(FAllLe(0, y.heat_transfer ** (x.T_in_hot -- x.T_in_cold)), "heat flows from hot to cold", y.heat_transfer)
    \o Chk(FAllLe(FMin(x.T_in_hot, x.T_in_cold) -- "1e-9", y.T_out_hot) /\ FAllLe(y.T_out_hot, FMax(x.T_in_hot, x.T_in_cold) ++ "1e-9")
           /\ FAllLe(FMin(x.T_in_hot, x.T_in_cold) -- "1e-9", y.T_out_cold) /\ FAllLe(y.T_out_cold, FMax(x.T_in_hot, x.T_in_cold) ++ "1e-9"), "outlet temperatures lie between the inlet ones", y.T_out_hot)
PartLaw(e) ==
    LET x == e.x
        y == e.y
        g == Gam(e)
        R == Rg(e)
    IN CASE e.c = "TemperatureIsentropic" -> N(y.T ** Stag(g, x.M), x.Tt, "static and total temperature are isentropic")
         [] e.c = "TotalTemperatureIsentropic" -> N(y.Tt, x.T ** Stag(g, x.M), "static and total temperature are isentropic")
         [] e.c = "PressureIsentropic" -> N(y.p ** PRat(g, x.M), x.pt, "static and total pressure are isentropic")
         [] e.c = "TotalPressureIsentropic" -> N(y.pt, x.p ** PRat(g, x.M), "static and total pressure are isentropic")
         [] e.c = "DensityIdealGas" -> N((y.rho ** R) ** x.T, x.p, "duct density is the ideal gas's")
         [] e.c = "SpeedOfSound" -> N(y.a, Sound(g, R, x.T), "duct speed of sound is the perfect gas's")
         [] e.c = "MachNumberfromSpeed" -> N(y.M ** x.a, x.Utrue, "Mach number is speed over speed of sound")
         [] e.c = "HeatAdditionPressureLoss" -> N(y.Tt_out, x.Tt_in ++ (x.heat_in // (x.cp ** x.mdot)), "a station changes total temperature by heat over mdot cp")
               \o N(y.pt_out, ((x.pt_in ** x.pressure_recovery) -- (Dyn(x.mdot, x.rho, x.area) ** x.dynamic_pressure_loss_factor)) ++ x.delta_p, "a station changes total pressure by its losses and gains")
         [] e.c = "MassFlow" -> N(y.mdot, ((x.rho ** x.M) ** x.a) ** x.area, "mass flow is density times speed times area at every station")
         [] e.c = "MachNumberDuct" -> C7(((x.rho ** y.M) ** x.a) ** x.area, x.mdot, "mass flow is density times speed times area at every station")
         [] e.c = "DuctExitPressureRatioImplicit" -> C7(y.nozzle_pressure_ratio ** x.pt, x.p_exit, "nozzle pressure ratio is exit over total pressure")
         [] e.c = "DuctExitMachNumber" -> N(y.M, ExitMach(g, x.nozzle_pressure_ratio), "nozzle Mach number follows its pressure ratio and chokes at one")
         [] e.c = "NetForce" -> Force(y.F_net, x.mdot, x.Utrue_inf, x.p_inf, x.area_nozzle, x.p_nozzle, x.rho_nozzle, Opt(e, "cfg", "0.98"))
         [] e.c = "NozzlePressureLoss" -> N(y.pt, x.pt_in -- (Dyn(x.mdot, x.rho, x.area) ** x.dynamic_pressure_loss_factor), "nozzle total pressure is the upstream one less its loss")
         [] e.c = "Inlet" -> Intake(x @@ y, g, R, x["totalpressure.eta_ram"])
         [] e.c = "DuctStation" -> Station(x @@ y, g, R, "")
         [] e.c = "OutletNozzle" -> Outlet(x @@ y, g, R)
         [] e.c = "ExplicitIncompressibleDuct" ->
              LET U == x["fltcond|Utrue"]
                  rho == x["fltcond|rho"]
                  \* Bernoulli with losses: dynamic pressure in + exchanger pressure change = (1 + loss) dynamic pressure out
                  head == FMax((Sq(rho) ** Sq(U)) ++ ((2 ** rho) ** x.delta_p_hex), 0)
                  mdot == x.area_nozzle ** FSqrt(head // (1 ++ Opt(e, "static_pressure_loss_factor", "0.15")))
              IN Near(y.mdot, mdot, "1e-9", "1e-4", "incompressible duct flow follows Bernoulli with its losses")
                 \o NearN(y.drag, y.mdot ** (U -- (Opt(e, "gross_thrust_factor", "0.98") ** (y.mdot // (rho ** x.area_nozzle)))), "1e-9", "1e-9", "duct drag is its momentum deficit")
         [] e.c = "OffsetStripFinGeometry" -> GeoLaw(x, y)
         [] e.c = "OffsetStripFinData" -> LET c == OffsetFin(x.Re_dh_cold, x.alpha_cold, x.delta_cold, x.gamma_cold)
                                              h == OffsetFin(x.Re_dh_hot, x.alpha_hot, x.delta_hot, x.gamma_hot)
                                          IN N(y.j_cold, c.j, "Colburn factor is Manglik and Bergles's") \o N(y.f_cold, c.f, "friction factor is Manglik and Bergles's") \o N(y.j_hot, h.j, "Colburn factor is Manglik and Bergles's") \o N(y.f_hot, h.f, "friction factor is Manglik and Bergles's")
         [] e.c = "HydraulicDiameterReynoldsNumber" -> N(y.Re_dh_cold, (x.mdot_cold ** x.dh_cold) // (x.xs_area_cold ** x.mu_cold), "Reynolds number of the hydraulic diameter") \o N(y.Re_dh_hot, (x.mdot_hot ** x.dh_hot) // (x.xs_area_hot ** x.mu_hot), "Reynolds number of the hydraulic diameter")
         [] e.c = "NusseltFromColburnJ" -> N(y.Nu_dh_cold, (x.j_cold ** x.Re_dh_cold) ** FPow((x.cp_cold ** x.mu_cold) // x.k_cold, 1 // 3), "Nusselt number is j Re Pr^(1/3)") \o N(y.Nu_dh_hot, (x.j_hot ** x.Re_dh_hot) ** FPow((x.cp_hot ** x.mu_hot) // x.k_hot, 1 // 3), "Nusselt number is j Re Pr^(1/3)")
         [] e.c = "ConvectiveCoefficient" -> N(y.h_conv_cold ** x.dh_cold, x.Nu_dh_cold ** x.k_cold, "film coefficient is Nu k over diameter") \o N(y.h_conv_hot ** x.dh_hot, x.Nu_dh_hot ** x.k_hot, "film coefficient is Nu k over diameter")
         [] e.c = "FinEfficiency" -> N(y.eta_overall_cold, FinEta(x.h_conv_cold, x.fin_area_ratio_cold, x.channel_height_cold, x.fin_thickness, x.material_k), "surface efficiency is that of adiabatic-tip fins") \o N(y.eta_overall_hot, FinEta(x.h_conv_hot, x.fin_area_ratio_hot, x.channel_height_hot, x.fin_thickness, x.material_k), "surface efficiency is that of adiabatic-tip fins")
         [] e.c = "UAOverall" -> N(y.UA_overall, Overall(x.h_conv_cold, x.heat_transfer_area_cold, x.eta_overall_cold, x.h_conv_hot, x.heat_transfer_area_hot, x.eta_overall_hot, Opt(e, "fouling_factor_cold", 0), Opt(e, "fouling_factor_hot", 0)), "overall conductance adds film and fouling resistances")
         [] e.c = "NTUMethod" -> LET Cc == x.mdot_cold ** x.cp_cold
                                     Ch == x.mdot_hot ** x.cp_hot
                                 IN N(y.NTU ** CMin(Cc, Ch), x.UA_overall, "NTU is conductance over the smaller capacity") \o N(y.C_ratio ** CMax(Cc, Ch), CMin(Cc, Ch), "capacity ratio is smaller over larger") \o N(y.heat_max, CMin(Cc, Ch) ** (x.T_in_hot -- x.T_in_cold), "heat limit is that of the smaller stream")
         [] e.c = "CrossFlowNTUEffectiveness" -> N(y.effectiveness, CrossEff(x.NTU, x.C_ratio), "effectiveness is the cross-flow unmixed one") \o Chk(FAllLe(0, y.effectiveness) /\ FAllLe(y.effectiveness, 1), "effectiveness lies between 0 and 1", y.effectiveness)
         [] e.c = "NTUEffectivenessActualHeatTransfer" -> N(y.heat_transfer, x.effectiveness ** x.heat_max, "heat is effectiveness times its limit")
         [] e.c = "OutletTemperatures" -> N((x.mdot_hot ** x.cp_hot) ** (x.T_in_hot -- y.T_out_hot), x.heat_transfer, "heat leaves the hot side") \o N((x.mdot_cold ** x.cp_cold) ** (y.T_out_cold -- x.T_in_cold), x.heat_transfer, "heat enters the cold side")
         [] e.c = "PressureDrop" -> N(y.delta_p_cold, Loss(x.f_cold, x.mdot_cold, x.xs_area_cold, x.rho_cold, x.dh_cold, x.length_overall, Opt(e, "Kc_cold", "0.3"), Opt(e, "Ke_cold", "-0.1")), "cold pressure drop follows friction over the cold flow length")
                                 \o N(y.delta_p_hot, Loss(x.f_hot, x.mdot_hot, x.xs_area_hot, x.rho_hot, x.dh_hot, x.width_overall, Opt(e, "Kc_hot", "0.3"), Opt(e, "Ke_hot", "-0.1")), "hot pressure drop follows friction over the hot flow length")
         [] e.c = "HXGroup" -> LET z == x @@ [n_wide_cold |-> x["ac|propulsion|thermal|hx|n_wide_cold"], n_long_cold |-> x["ac|propulsion|thermal|hx|n_long_cold"], n_tall |-> x["ac|propulsion|thermal|hx|n_tall"]]
                               IN GeoLaw(z, y) \o ExBalance(z, y) \o Exchanger(z, y, Geometry(z))
\* a converged duct: d.<member>.<port>; e.x top inputs (with the exchanger's heat and loss given or inside)
Duct(e) ==
    LET d == e.d
        t == d.top
        g == "1.4"
        R == "287.05"
        own == "hx" \in DOMAIN d
        s1 == [d.sta1 EXCEPT !.mdot = t.mdot]
        mom(s) == C7(s.mdot, t.mdot, "the same mass flow crosses every station")
        qs == (t.heat_in_1 ++ t.heat_in_2) ++ d.sta3.heat_in
    IN Intake(d.inlet, g, R, d.inlet["totalpressure.eta_ram"])
    \o C7(d.inlet.T, t.T_inf, "the inlet sees the free stream") \o C7(d.inlet.p, t.p_inf, "the inlet sees the free stream") \o C7(d.inlet.Utrue, t.Utrue, "the inlet sees the free stream")
    \o Station(d.sta1, g, R, "") \o Station(d.sta2, g, R, "") \o Station(d.sta3, g, R, "")
    \o mom(d.sta1) \o mom(d.sta2) \o mom(d.sta3) \o mom(d.nozzle) \o mom(d.force) \o C7(t.mdot_actual, t.mdot, "the nozzle passes the mass flow of the duct") \o C7(d.nozzle.mdot_actual, t.mdot, "the nozzle passes the mass flow of the duct")
    \o C7(d.sta1.pt_in, d.inlet.pt, "stations follow one another") \o C7(d.sta1.Tt_in, d.inlet.Tt, "stations follow one another") \o C7(d.sta2.pt_in, d.sta1.pt_out, "stations follow one another") \o C7(d.sta2.Tt_in, d.sta1.Tt_out, "stations follow one another")
    \o C7(d.sta3.pt_in, d.sta2.pt_out, "stations follow one another") \o C7(d.sta3.Tt_in, d.sta2.Tt_out, "stations follow one another") \o C7(d.nozzle.pt_in, d.sta3.pt_out, "stations follow one another") \o C7(d.nozzle.Tt, d.sta3.Tt_out, "stations follow one another")
    \o C7(d.sta1.area, t.area_1, "stations have their own areas") \o C7(d.nozzle.area, t.area_nozzle, "stations have their own areas") \o C7(d.force.area_nozzle, t.area_nozzle, "stations have their own areas")
    \o C7(d.sta1.dynamic_pressure_loss_factor, t.loss_factor_1, "stations have their own losses") \o C7(d.sta1.pressure_recovery, t.pressure_recovery_1, "stations have their own losses") \o C7(d.sta2.pressure_recovery, t.pressure_recovery_2, "stations have their own losses") \o C7(d.sta3.pressure_recovery, t.pressure_recovery_3, "stations have their own losses")
    \o C7(d.sta1.heat_in, t.heat_in_1, "stations have their own heat") \o C7(d.sta2.heat_in, t.heat_in_2, "stations have their own heat") \o C7(d.sta1.delta_p, t.delta_p_1, "stations have their own losses") \o C7(d.sta2.delta_p, t.delta_p_2, "stations have their own losses")
    \o C7(d.nozzle.p_exit, t.p_inf ++ t.convergence_hack, "the nozzle exits to ambient pressure") \o Outlet(d.nozzle, g, R)
    \o NearN(t.mdot ** (t.cp ** (d.nozzle.Tt -- d.inlet.Tt)), qs, "1e-7", "1e-9" ** FMaxOf(t.mdot ** (t.cp ** d.inlet.Tt)), "the duct's air carries away all the heat given to it")
    \o Force(d.force.F_net, t.mdot, t.Utrue, t.p_inf, t.area_nozzle, d.nozzle.p, d.nozzle.rho, Opt(e, "cfg", "0.98"))
    \o (IF ~own THEN C7(d.sta2.area, t.area_2, "stations have their own areas") \o C7(d.sta3.area, t.area_3, "stations have their own areas") ELSE LET x == d.hx @@ [n_wide_cold |-> d.hx["ac|propulsion|thermal|hx|n_wide_cold"], n_long_cold |-> d.hx["ac|propulsion|thermal|hx|n_long_cold"], n_tall |-> d.hx["ac|propulsion|thermal|hx|n_tall"]] IN
            GeoLaw(x, x) \o ExBalance(x, x) \o Exchanger(x, x, Geometry(x))
         \o C7(d.hx.mdot_cold, t.mdot, "the same mass flow crosses every station") \o C7(d.hx.T_in_cold, d.sta2.T, "the exchanger sees the second station") \o C7(d.hx.rho_cold, d.sta2.rho, "the exchanger sees the second station")
         \o C7(d.sta3.heat_in, d.hx.heat_transfer, "the exchanger heats the third station") \o C7(d.sta3.delta_p, d.hx.delta_p_cold, "the exchanger's pressure drop is taken at the third station")
         \o C7(d.sta2.area, d.hx.frontal_area, "the exchanger fills the duct") \o C7(d.sta3.area, d.hx.frontal_area, "the exchanger fills the duct") \o C7(d.hx.T_in_hot, t.T_in_hot, "the exchanger sees the coolant") \o C7(d.hx.mdot_hot, t.mdot_hot, "the exchanger sees the coolant") \o C7(t.T_out_hot, d.hx.T_out_hot, "the exchanger sees the coolant"))
=============================================================================
