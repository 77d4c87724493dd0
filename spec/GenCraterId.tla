---------------------------- MODULE GenCraterId ----------------------------
(* Operation sequences for the real code: every field group is exercised.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxObj, MaxOps
VARIABLES nobj, hist
KeyCh  == {"ori", "pv", "pa", "loc", "time", "lonlat", "dir", "vv", "dens"}
SizeCh == {"diameter", "radius", "axes", "transient_diameter", "transient_radius", "projectile_diameter", "projectile_radius", "projectile_mass"}
VarCh  == {"mdiam", "mrad", "maxes", "mori", "mloc", "mrim", "mflr", "deg", "ptime", "pnd", "pseq", "name"}
SetOps == {"mdiam", "mrad", "msma", "msmi", "mori", "mloc", "mrim", "mflr", "deg", "ptime", "pnd", "pseq", "name"}
FixOps == {"sma", "smi", "td", "pd", "pm", "ori", "pv", "pa", "loc", "time", "id", "diameter", "radius", "mtype", "density", "pvv", "pdir", "tr", "pr"}
GInit == nobj = 1 /\ hist = <<>>
Copy == /\ nobj < MaxObj
        /\ \E i \in 1 .. nobj : \E k \in {0, 1, 2} : \E v \in {0, 1, 2, 3} :
             LET ks == IF k = 0 THEN {} ELSE {RandomElement(KeyCh) : x \in 1 .. k}
                 vs == IF v = 0 THEN {} ELSE {RandomElement(VarCh) : x \in 1 .. v}
             IN \E s \in {RandomElement({"none", "none", "yes"})} :
                  hist' = Append(hist, [op |-> "copy", i |-> i, key |-> ks, var |-> vs,
                                        size |-> IF s = "none" THEN "" ELSE RandomElement(SizeCh)])
        /\ nobj' = nobj + 1
Measure == \E i \in 1 .. nobj : \E f \in {RandomElement(SetOps)} :
              hist' = Append(hist, [op |-> "set", i |-> i, f |-> f]) /\ UNCHANGED nobj
Modify == \E i \in 1 .. nobj : \E f \in {RandomElement(FixOps)} :
              hist' = Append(hist, [op |-> "fix", i |-> i, f |-> f]) /\ UNCHANGED nobj
GNext == Len(hist) < MaxOps /\ (Copy \/ Measure \/ Modify)
GSpec == GInit /\ [][GNext]_<<nobj, hist>>
Emit == Len(hist) = MaxOps => PrintT("SCN " \o ToJson(hist))
=============================================================================
