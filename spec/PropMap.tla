------------------------------- MODULE PropMap -------------------------------
(* The propeller maps: efficiency over power coefficient (rows) and advance  *)
(* ratio (columns), and static thrust per power coefficient.  3 blades:      *)
(* Raymer, fig. 13.12; 4 blades: high-power map, no efficiency at rest.      *)
EXTENDS F64, Integers, Sequences
Eta3 == <<
    <<"0.45", "0.6", "0.72", "0.75", "0.7", "0.65", "0.6", "0.55", "0.5", "0.45", "0.4", "0.35", "0.3", "0.25">>,
    <<"0.35", "0.6", "0.74", "0.83", "0.86", "0.88", "0.9", "0.9", "0.88", "0.85", "0.83", "0.8", "0.75", "0.7">>,
    <<"0.2", "0.35", "0.55", "0.7", "0.8", "0.85", "0.87", "0.9", "0.91", "0.92", "0.9", "0.9", "0.88", "0.87">>,
    <<"0.12", "0.22", "0.36", "0.51", "0.66", "0.75", "0.8", "0.85", "0.87", "0.88", "0.91", "0.905", "0.902", "0.9">>,
    <<"0.07", "0.15", "0.29", "0.36", "0.45", "0.65", "0.73", "0.77", "0.83", "0.85", "0.87", "0.875", "0.88", "0.895">>,
    <<"0.05", "0.12", "0.25", "0.32", "0.38", "0.5", "0.61", "0.72", "0.77", "0.79", "0.83", "0.85", "0.86", "0.865">>,
    <<"0.04", "0.11", "0.19", "0.26", "0.33", "0.4", "0.51", "0.61", "0.71", "0.74", "0.78", "0.815", "0.83", "0.85">>,
    <<"0.035", "0.085", "0.16", "0.22", "0.28", "0.35", "0.41", "0.52", "0.605", "0.69", "0.74", "0.775", "0.8", "0.82">>,
    <<"0.03", "0.06", "0.13", "0.19", "0.24", "0.31", "0.35", "0.46", "0.52", "0.63", "0.71", "0.75", "0.78", "0.8">> >>
Eta4 == <<
    <<"0.0", "0.51", "0.65", "0.66", "0.65", "0.64", "0.63", "0.62", "0.61">>,
    <<"0.0", "0.5", "0.71", "0.82", "0.81", "0.7", "0.68", "0.67", "0.66">>,
    <<"0.0", "0.49", "0.72", "0.83", "0.86", "0.85", "0.75", "0.7", "0.69">>,
    <<"0.0", "0.45", "0.71", "0.82", "0.865", "0.875", "0.84", "0.79", "0.72">>,
    <<"0.0", "0.42", "0.69", "0.815", "0.87", "0.885", "0.878", "0.84", "0.8">>,
    <<"0.0", "0.4", "0.65", "0.81", "0.865", "0.89", "0.903", "0.873", "0.83">>,
    <<"0.0", "0.38", "0.61", "0.78", "0.85", "0.88", "0.91", "0.9", "0.86">>,
    <<"0.0", "0.34", "0.58", "0.73", "0.83", "0.876", "0.904", "0.91", "0.88">>,
    <<"0.0", "0.31", "0.53", "0.71", "0.81", "0.87", "0.895", "0.91", "0.882">>,
    <<"0.0", "0.25", "0.44", "0.62", "0.75", "0.84", "0.88", "0.89", "0.87">>,
    <<"0.0", "0.18", "0.35", "0.5", "0.68", "0.79", "0.86", "0.86", "0.85">>,
    <<"0.0", "0.14", "0.25", "0.4", "0.55", "0.7", "0.79", "0.8", "0.72">>,
    <<"0.0", "0.12", "0.19", "0.29", "0.4", "0.5", "0.6", "0.6", "0.5">> >>
\* every 0.025 of power coefficient
Static3 == <<"2.5", "3.0", "2.55", "2.0", "1.85", "1.5", "1.25", "1.05", "0.95", "0.86", "0.79", "0.7", "0.62", "0.53", "0.45", "0.38", "0.32", "0.28", "0.24", "0.21", "0.18", "0.16", "0.14", "0.12", "0.1">>
Static4 == <<"2.5", "3.0", "2.55", "2.0", "1.85", "1.5", "1.5", "1.26", "1.14", "1.032", "0.948", "0.84", "0.744", "0.636", "0.54", "0.45599999999999996", "0.384", "0.336", "0.288", "0.252", "0.216", "0.192", "0.168", "0.144", "0.12", "0.108", "0.096", "0.096", "0.096", "0.096", "0.096", "0.096", "0.096", "0.096", "0.096", "0.096", "0.096", "0.096", "0.096", "0.096", "0.096">>
\* a tabulated point: row i, column j (from 0)
CpAt(blades, i) == IF blades = 3 THEN i ** "0.1" ELSE i // "4.8"
JAt(blades, j) == IF blades = 3 THEN "0.2" ++ (j ** "0.2") ELSE j ** "0.5"
EtaAt(blades, i, j) == (IF blades = 3 THEN Eta3 ELSE Eta4)[i + 1][j + 1]
StaticAt(blades, i) == (IF blades = 3 THEN Static3 ELSE Static4)[i + 1]
=============================================================================
