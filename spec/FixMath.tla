------------------------------ MODULE FixMath ------------------------------
(***************************************************************************)
(* Fixed-point functions used by the numeric parts of the specification.   *)
(* Every intermediate value stays below 2^31.                              *)
(***************************************************************************)
EXTENDS ImgBase, Tables

Q15 == 32768

Mul15(a, b) == (a * b) \div Q15                    \* both below 2^15.5 in magnitude

(* Integer square root: the largest r with r*r <= n. *)
RECURSIVE IsqrtIn(_, _, _)
IsqrtIn(n, lo, hi) ==
    IF lo >= hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN
         IF m * m <= n THEN IsqrtIn(n, m, hi) ELSE IsqrtIn(n, lo, m - 1)
Isqrt(n) == IsqrtIn(n, 0, 46340)

(* exp(-u / 2^10) * 2^15, for u >= 0. *)
RECURSIVE ExpBits(_, _, _)
ExpBits(u, k, acc) ==
    IF u = 0 \/ acc = 0 THEN acc
    ELSE ExpBits(u \div 2, k + 1, IF u % 2 = 1 THEN RDiv(acc * ExpTab[k], Q15) ELSE acc)
ExpNeg(u) == IF u >= 32768 THEN 0 ELSE ExpBits(u, 1, Q15)

(* x^(e/2^eq) for x in 0..1 at scale 2^15. *)
Sqrt15(x) == LET n == x * Q15 r == Isqrt(n) IN IF n > r * (r + 1) THEN r + 1 ELSE r      \* to nearest; x <= 2^15
RECURSIVE IPow15(_, _)
IPow15(x, n) == IF n = 0 THEN Q15 ELSE RDiv(x * IPow15(x, n - 1), Q15)
RECURSIVE FracPow(_, _, _)
FracPow(r, bits, left) ==       \* r = x^(1/2^pos); the lowest `left` bits of the fractional exponent remain
    IF left = 0 THEN Q15
    ELSE LET rest == FracPow(Sqrt15(r), bits, left - 1) IN
         IF (bits \div P2(left - 1)) % 2 = 1 THEN RDiv(r * rest, Q15) ELSE rest
PowFx(x, e, eq) == RDiv(IPow15(x, e \div P2(eq)) * FracPow(Sqrt15(x), e % P2(eq), eq), Q15)

------------------------------------------------------------------------------
(* CIELAB: inverse of the lightness function, F(t) for t at scale 2^15. *)
LabD == 6780                                        \* 6/29
LabF(t) ==
    IF t > LabD THEN LET tc == Min2(t, 46000) IN IF tc < 41000 THEN (((tc * tc) \div Q15) * tc) \div Q15
                                                      ELSE (((tc * tc) \div (2 * Q15)) * tc) \div 16384
    ELSE ((t - 4520) * 4209) \div Q15                 \* 3 (6/29)^2 (t - 4/29)

White(name) == IF name = "D50" THEN WhiteD50 ELSE WhiteD65

(* Linear light (2^15) of an sRGB colour -> XYZ (2^15). *)
XyzRow(r, lr, lg, lb) ==
    (RgbToXyz[3*r+1] * lr + RgbToXyz[3*r+2] * lg + RgbToXyz[3*r+3] * lb + 4096) \div 8192
RgbRow(r, X, Y, Z) ==
    (XyzToRgb[3*r+1] * X + XyzToRgb[3*r+2] * Y + XyzToRgb[3*r+3] * Z + 4096) \div 8192

(* 8-bit level of linear light v (2^15). *)
RECURSIVE LevelIn(_, _, _)
LevelIn(v, lo, hi) ==          \* largest n in lo..hi with n = 0 or SrgbThr[n] <= v
    IF lo >= hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN
         IF SrgbThr[m] <= v THEN LevelIn(v, m, hi) ELSE LevelIn(v, lo, m - 1)
SrgbLevel(v) == LevelIn(v, 0, 255)

(* CIELAB (scale 2^12) -> linear RGB (2^15), as a triple. *)
LabToLin(L, A, B, white) ==
    LET fy == ((L + 65536) * 8) \div 116
        fx == fy + (A * 8) \div 500
        fz == fy - (B * 8) \div 200
        wp == White(white)
        X == (LabF(fx) * wp[1]) \div 16384
        Y == (LabF(fy) * wp[2]) \div 16384
        Z == (LabF(fz) * wp[3]) \div 16384
    IN IF Max3(fx, fy, fz) > 42000 THEN <<131072, 131072, 131072>>        \* XYZ beyond 2: far outside the gamut
       ELSE <<RgbRow(0, X, Y, Z), RgbRow(1, X, Y, Z), RgbRow(2, X, Y, Z)>>

InGamut(lin, m) == \A i \in 1..3 : lin[i] >= -m /\ lin[i] <= Q15 + m

(* An 8-bit sample v renders linear light l, allowing the level to be off by tol and the light by dl. *)
Renders(v, l, dl, tol) == v >= SrgbLevel(l - dl) - tol /\ v <= SrgbLevel(l + dl) + tol

(* Lanczos kernel at t/12 (2^14). *)
LanczosQ(t, a) ==
    LET u == Abs(t) IN
    IF u > 12 * a THEN 0
    ELSE CASE a = 1 -> LanczosTab1[u+1] [] a = 2 -> LanczosTab2[u+1] [] a = 3 -> LanczosTab3[u+1]
           [] a = 4 -> LanczosTab4[u+1] [] a = 5 -> LanczosTab5[u+1]
           [] a = 6 -> LanczosTab6[u+1] [] a = 7 -> LanczosTab7[u+1] [] a = 8 -> LanczosTab8[u+1]
           [] a = 9 -> LanczosTab9[u+1] [] a = 10 -> LanczosTab10[u+1] [] a = 12 -> LanczosTab12[u+1]
           [] a = 16 -> LanczosTab16[u+1] [] a = 20 -> LanczosTab20[u+1]
LanczosSizes == (1..10) \cup {12, 16, 20}
=============================================================================
