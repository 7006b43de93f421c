----------------------------- MODULE GenerateMC -----------------------------
EXTENDS Generate
MC_Modes == <<384, 420>>
MC_Order == <<1, 2>>
(* Designs that do not keep the guarantees; the model must tell.             *)
Bad_Modes == <<420, 420>>
Bad_Order == <<2, 1>>
=============================================================================
