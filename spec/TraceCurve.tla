------------------------------ MODULE TraceCurve ------------------------------
(* Recorded key conversions against Curve.                                   *)
EXTENDS TraceLib, Curve
vars == <<l>>
TInit == l = 1
(* Public.ToBox of any 32 bytes.  small: a point of small order, which may   *)
(* (and for other reasons should) be refused; so may y >= p.                 *)
Pub == /\ Is("pub") /\ Returned(ev.res)
       /\ LET y == YOf(ev.key)
              canonical == Less(y, P)
          IN On("C19") =>
             /\ Witness(y, ev.w)
             /\ ev.res = "ok" => ev.w.point /\ Converted(y, ev.u, ev.w)
             /\ ev.w.point /\ canonical /\ ~ev.small => ev.res = "ok"
             /\ ev.again
(* A key pair: half is the SHA-512 half of the seed, u1 what the public key  *)
(* was converted to, s the secret key, su the public key that belongs to it. *)
Pair == /\ Is("convert") /\ Returned(ev.res)
        /\ On("C19") => /\ ev.res = "ok"
                        /\ ev.s = Clamped(ev.half)
                        /\ ev.u = ev.su
                        /\ ev.same        \* the keys are still what they were
TNext == (Pub \/ Pair)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
