------------------------------- MODULE Color -------------------------------
(***************************************************************************)
(* CIELAB forward conversion and everything computed in CIELAB             *)
(* (C13, C15, C16, C24).  Lightness and chroma are at scale 2^12, linear   *)
(* light and XYZ at scale 2^15.                                            *)
(***************************************************************************)
EXTENDS Tone, TLC

(* The t with LabF(t) = v: the lightness function of CIELAB at scale 2^15. *)
RECURSIVE LabFInvIn(_, _, _)
LabFInvIn(v, lo, hi) ==
    IF lo >= hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN
         IF LabF(m) <= v THEN LabFInvIn(v, m, hi) ELSE LabFInvIn(v, lo, m - 1)
LabFn(v) == IF v <= 290 THEN 4520 + ((v * 31895) \div 4096) ELSE LabFInvIn(v, LabD, 36000)

LinOf(p) == <<SrgbLin[p[1]+1], SrgbLin[p[2]+1], SrgbLin[p[3]+1]>>
XyzOf(lin) == <<XyzRow(0, lin[1], lin[2], lin[3]), XyzRow(1, lin[1], lin[2], lin[3]), XyzRow(2, lin[1], lin[2], lin[3])>>

(* XYZ (2^15) -> Lab (2^12). *)
LabOfXyz(xyz, white) ==
    LET wp == White(white)
        fx == LabFn((xyz[1] * 16384) \div wp[1])
        fy == LabFn((xyz[2] * 16384) \div wp[2])
        fz == LabFn((xyz[3] * 16384) \div wp[3])
    IN <<((116 * fy) \div 8) - 65536, (500 * (fx - fy)) \div 8, (200 * (fy - fz)) \div 8>>
LabOf(p, white) == LabOfXyz(XyzOf(LinOf(p)), white)
LabRange(p) == p        \* (kept for readability of the callers)

IsGrayPix(p) == p[1] = p[2] /\ p[2] = p[3]

(* An output pixel renders the CIELAB colour (L, A, B); outside the gamut nothing is promised. *)
RendersLab(o, L, A, B, white, dl, tol) ==
    LET lin == LabToLin(L, A, B, white) IN
    InGamut(lin, -400) => \A k \in 1..3 : Renders(o[k], lin[k], dl, tol)
=============================================================================
