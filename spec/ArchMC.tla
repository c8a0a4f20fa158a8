-------------------------------- MODULE ArchMC --------------------------------
(* Power moving through an assembled architecture, on the graph of ArchGraph *)
(* in integer units: a port gets its value once its wire's source, its sum's *)
(* members or its device's inputs are known; the implicit generator balance  *)
(* is resolved from the bus side.  Every device must end up driven, no port  *)
(* twice, and the ledger closes: what motors draw is what the battery and    *)
(* the generator give, what a failed propulsor draws is nothing.             *)
EXTENDS ArchGraph, FiniteSets, TLC, Json
CONSTANTS Archs, Throttles, Actives, Shares, Emit
VARIABLES arch, thr, act, share, val
vars == <<arch, thr, act, share, val>>
A == Arch(arch)
Range1(s) == {s[i] : i \in 1..Len(s)}
Devs == Range1(A.dev)
Cls(p) == (CHOOSE d \in Devs : d.p = p).c
IsDev(p) == \E d \in Devs : d.p = p
Known(q) == q \in DOMAIN val
Val(q) == val[q]
\* physical ports of a device class
Ins(c) == CASE c = "SimpleTurboshaft" -> <<"throttle", "shaft_power_rating">> [] c = "SimpleMotor" -> <<"throttle", "elec_power_rating">>
            [] c = "SimpleGenerator" -> <<"shaft_power_in">> [] c = "SimplePropeller" -> <<"shaft_power_in">>
            [] c = "PowerSplit" -> <<"power_in", "power_split_fraction">> [] c = "SimpleBattery" -> <<"elec_load">>
MOTOR == 9700
\* top inputs of the model: ratings; the engine rating is the unit so that the throttle solved for is a power
TopVal(p) == CASE p = "throttle" -> thr [] p \in {RATING("engine")} -> 100 [] p \in {RATING("motor"), "dv_motor1_rating"} -> MOTOR [] OTHER -> 1
FreeTop == {w \in Range1(A.wires) : w[1] \in {"top", "option"} /\ ~(\E s \in Range1(A.sums) : s[1] = w[2])}
Failing == Range1(A.fails)
External == UNION {{<<d.p, "power_split_fraction">> : d \in {x \in Devs : x.c = "PowerSplit"}},
                   IF A.balance = <<>> /\ arch \in {"SeriesHybridElectricPropulsionSystem", "SingleSeriesHybridElectricPropulsionSystem"} THEN {<<"eng1", "throttle">>, <<"motor1", "throttle">>} ELSE {}}
Init == /\ arch \in Archs /\ thr \in Throttles /\ act \in Actives /\ share \in Shares
        /\ (act # 100 => Arch(arch).fails # <<>>)
        /\ (share # 100 => \E i \in 1..Len(Arch(arch).dev) : Arch(arch).dev[i].c = "PowerSplit")
        /\ val = [q \in {<<"top", w[2]>> : w \in FreeTop} \cup External \cup {<<p, "throttle">> : p \in Failing} \cup (IF Failing # {} THEN {<<"top", "throttle">>} ELSE {}) |->
                    IF q[1] = "top" THEN TopVal(q[2]) ELSE IF q[2] = "power_split_fraction" THEN share
                    ELSE IF q[1] \in Failing THEN (thr * act) \div 100 ELSE thr]
Set(q, v) == val' = [x \in DOMAIN val \cup {q} |-> IF x = q THEN v ELSE val[x]] /\ UNCHANGED <<arch, thr, act, share>>
Set2(f) == val' = [x \in DOMAIN val \cup DOMAIN f |-> IF x \in DOMAIN f THEN f[x] ELSE val[x]] /\ UNCHANGED <<arch, thr, act, share>>
\* wires that can carry power values now (a port is never driven twice)
WireOn(w) == (IsDev(w[1]) \/ w[1] \in {"top", "option"}) /\ Known(<<w[1], w[2]>>) /\ ~Known(<<w[3], w[4]>>)
SumOn(s) == ~Known(<<"top", s[1]>>) /\ \A m \in Range1(s[2]) : Known(m)
Power(d) == CASE d.c = "SimpleTurboshaft" -> (Val(<<d.p, "throttle">>) * Val(<<d.p, "shaft_power_rating">>)) \div 100
              [] d.c = "SimpleMotor" -> (Val(<<d.p, "throttle">>) * Val(<<d.p, "elec_power_rating">>)) \div 100
              [] d.c = "SimpleGenerator" -> Val(<<d.p, "shaft_power_in">>) [] d.c = "SimplePropeller" -> Val(<<d.p, "shaft_power_in">>)
              [] d.c = "PowerSplit" -> Val(<<d.p, "power_in">>) [] d.c = "SimpleBattery" -> Val(<<d.p, "elec_load">>)
F(d, n, v) == <<d.p, n>> :> v
Outs(d) == LET P == Power(d) IN CASE
      d.c = "SimpleTurboshaft" -> F(d, "shaft_power_out", P) @@ F(d, "fuel_flow", P) @@ F(d, "component_weight", 1)
   [] d.c = "SimpleMotor" -> F(d, "elec_load", P) @@ F(d, "shaft_power_out", (P * 97) \div 100) @@ F(d, "heat_out", P - (P * 97) \div 100) @@ F(d, "component_weight", 1)
   [] d.c = "SimpleGenerator" -> F(d, "elec_power_out", (P * 97) \div 100) @@ F(d, "heat_out", P - (P * 97) \div 100)
   [] d.c = "SimplePropeller" -> F(d, "thrust", P) @@ F(d, "component_weight", 1)
   [] d.c = "PowerSplit" -> LET a == (P * Val(<<d.p, "power_split_fraction">>)) \div 100 IN F(d, "power_out_A", a) @@ F(d, "power_out_B", P - a) @@ F(d, "heat_out", 0)
   [] d.c = "SimpleBattery" -> F(d, "heat_out", P)
FireOn(d) == (\A q \in Range1(Ins(d.c)) : Known(<<d.p, q>>)) /\ ~(DOMAIN Outs(d) \subseteq DOMAIN val)
BalanceOn(b) == Known(<<b[3], b[4]>>) /\ ~Known(<<"eng1", "throttle">>)
\* refrigerator load: an outside draw on the bus
RefrigOn == \E s \in Range1(A.sums) : <<"refrig", "elec_load">> \in Range1(s[2]) /\ ~Known(<<"refrig", "elec_load">>)
SumOf(s) == LET G[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE G[i - 1] + Val(s[i]) IN G[Len(s)]
Next == IF \E w \in Range1(A.wires) : WireOn(w) THEN LET w == CHOOSE w \in Range1(A.wires) : WireOn(w) IN Set(<<w[3], w[4]>>, Val(<<w[1], w[2]>>))
        ELSE IF RefrigOn THEN Set(<<"refrig", "elec_load">>, MOTOR)
        ELSE IF \E s \in Range1(A.sums) : SumOn(s) THEN LET s == CHOOSE s \in Range1(A.sums) : SumOn(s) IN Set(<<"top", s[1]>>, SumOf(s[2]))
        ELSE IF \E d \in Devs : FireOn(d) THEN Set2(Outs(CHOOSE d \in Devs : FireOn(d)))
        ELSE IF \E b \in Range1(A.balance) : BalanceOn(b) THEN LET b == CHOOSE b \in Range1(A.balance) : BalanceOn(b) IN Set(<<"eng1", "throttle">>, (Val(<<b[3], b[4]>>) * 100) \div 97)
        ELSE FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Done == ~ENABLED Next
\* no port is driven by two wires
NoDoubleDrive == \A v, w \in Range1(A.wires) : (v[3] = w[3] /\ v[4] = w[4]) => v = w
AllDriven == Done => \A d \in Devs : \A q \in Range1(Ins(d.c)) : Known(<<d.p, q>>)
G(p, q) == IF Known(<<p, q>>) THEN Val(<<p, q>>) ELSE 0
\* what is burnt and drawn leaves as shaft power to propellers, refrigeration load and heat
EngPower == G("eng1", "shaft_power_out") + G("eng2", "shaft_power_out")
PropPower == G("prop1", "shaft_power_in") + G("prop2", "shaft_power_in")
Ledger == (Done /\ A.balance # <<>>) =>
    EngPower + G("batt1", "elec_load") = PropPower + G("motor1", "heat_out") + G("motor2", "heat_out") + G("gen1", "heat_out") + G("refrig", "elec_load")
Balanced == Done => \A b \in Range1(A.balance) : G(b[1], b[2]) = G(b[3], b[4])
Shared == Done => \A d \in Devs : d.c = "PowerSplit" => G(d.p, "power_out_A") * 100 = G(d.p, "power_in") * share
FailedIsOff == (Done /\ act = 0) => G("top", "thrust") = G("prop1", "thrust") /\ G("prop2", "shaft_power_in") = 0
Report == (Emit /\ Done) => PrintT("@@" \o ToJson([arch |-> arch, thr |-> thr, act |-> act, share |-> share]))
=============================================================================
