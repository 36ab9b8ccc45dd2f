-------------------------------- MODULE Tone --------------------------------
(***************************************************************************)
(* Point operations on samples and pixels: brightness, contrast, gamma,    *)
(* grayscale, HSV, saturation, thresholds (C06, C07, C10-C12, C14, C21).   *)
(***************************************************************************)
EXTENDS FixMath

BrightV(v, b) == Clamp(v + b, 0, 255)
(* gain = g / 2^gq *)
ContrastV(v, g, gq) == Min2(RDiv(v * g, P2(gq)), 255)

Mean3V(p) == (p[1] + p[2] + p[3]) \div 3

(* Result of a point operation on the colour channels; alpha is carried over by G. *)
MapColour(im, c2, F(_, _), G(_)) ==          \* F(pixel, channel)
    LET H(x, y, k) == IF im.a /\ k = c2 - 1 THEN G(At(im, x, y, im.c - 1))
                      ELSE F(Pix(im, x, y), k + 1)
    IN Build(im.w, im.h, c2, im.a, 0, H)
MapSample(im, F(_)) == MapColour(im, im.c, LAMBDA p, k : F(p[k]), LAMBDA v : v)

Brightness(im, b) == MapSample(im, LAMBDA v : BrightV(v, b))
Contrast(im, g, gq) == MapSample(im, LAMBDA v : ContrastV(v, g, gq))
Grayscale(im) == MapColour(im, IF im.a THEN 2 ELSE 1, LAMBDA p, k : Mean3V(p), LAMBDA v : v)

------------------------------------------------------------------------------
(* HSV with all components in 0..255 *)
Hsv(p) ==
    LET r == p[1] g == p[2] b == p[3]
        mx == Max3(r, g, b) mn == Min3(r, g, b) range == mx - mn
        s == IF mx = 0 THEN 0 ELSE (255 * range) \div mx
        h0 == IF range = 0 THEN 0
              ELSE IF mx = r THEN TDiv(43 * (g - b), range)
              ELSE IF mx = g THEN 85 + TDiv(43 * (b - r), range)
              ELSE 170 + TDiv(43 * (r - g), range)
        h == IF h0 < 0 THEN h0 + 255 ELSE IF h0 > 255 THEN h0 - 255 ELSE h0
    IN <<h, s, mx>>

Rgb(p) ==
    LET h == p[1] s == p[2] v == p[3]
        sector == h \div 43
        f == (h - sector * 43) * 6
        lo == (v * (255 - s)) \div 255
        dn == (v * (255 - (s * f) \div 255)) \div 255
        up == (v * (255 - (s * (255 - f)) \div 255)) \div 255
    IN IF s = 0 THEN <<v, v, v>>
       ELSE CASE sector = 0 -> <<v, up, lo>> [] sector = 1 -> <<dn, v, lo>>
              [] sector = 2 -> <<lo, v, up>> [] sector = 3 -> <<lo, dn, v>>
              [] sector = 4 -> <<up, lo, v>> [] OTHER -> <<v, lo, dn>>

SatV(p, s) == LET q == Hsv(p) IN Rgb(<<q[1], Clamp(q[2] + s, 0, 255), q[3]>>)

RgbToHsvImg(im) == MapColour(im, im.c, LAMBDA p, k : Hsv(p)[k], LAMBDA v : v)
HsvToRgbImg(im) == MapColour(im, im.c, LAMBDA p, k : Rgb(p)[k], LAMBDA v : v)
Saturate(im, s) == MapColour(im, im.c, LAMBDA p, k : SatV(p, s)[k], LAMBDA v : v)

(* Exact hue in sixths of a turn as the fraction num/range (range > 0), in 0..6. *)
HueNum(p) ==
    LET r == p[1] g == p[2] b == p[3]
        mx == Max3(r, g, b) mn == Min3(r, g, b) range == mx - mn
        n == IF mx = r THEN g - b ELSE IF mx = g THEN (b - r) + 2 * range ELSE (r - g) + 4 * range
    IN IF n < 0 THEN n + 6 * range ELSE n

(* A float HSV pixel (scale 2^16) is the exact HSV of p to within 2^-13; hue compared on the circle. *)
HsvFOk(p, h, s, v) ==
    LET mx == Max3(p[1], p[2], p[3]) range == mx - Min3(p[1], p[2], p[3])
        Near16(z, num, den) == Abs(z - (65536 * (num \div den) + (65536 * (num % den)) \div den)) <= 8
        hd == IF range = 0 THEN Abs(h)
              ELSE Abs(h - (HueNum(p) * 10922 + (HueNum(p) * 4) \div 6) \div range)
    IN /\ (hd <= 8 \/ 65536 - hd <= 8)
       /\ IF mx = 0 THEN s = 0 ELSE Near16(s, range, mx)
       /\ Near16(v, mx, 255)

------------------------------------------------------------------------------
(* Thresholding; t, max and samples at one scale. *)
ThreshV(v, t, max, method) ==
    CASE method = "Binary" -> IF v > t THEN max ELSE 0
      [] method = "BinaryInv" -> IF v > t THEN 0 ELSE max
      [] method = "Trunc" -> IF v > t THEN t ELSE v
      [] method = "ToZero" -> IF v > t THEN v ELSE 0
      [] method = "ToZeroInv" -> IF v > t THEN 0 ELSE v

------------------------------------------------------------------------------
(* Gamma: o is m * (v/m)^(e/2^eq) to the nearest, limited to 255.  Exact  *)
(* rational rule for exponents 1, 2, 3 and 1/2, fixed-point otherwise.     *)
GammaOk(v, o, m, e, eq) ==
    LET one == P2(eq) IN
    CASE e = one -> o = v
      [] e = 2 * one -> IF v * v >= 255 * m THEN o = 255 ELSE Abs((2 * o * m) - (2 * v * v)) <= m
      [] e = 3 * one -> IF v * v * v >= 255 * m * m THEN o = 255
                        ELSE Abs((2 * o * m * m) - (2 * v * v * v)) <= (m * m) + ((m * m) \div 2048)
      [] 2 * e = one -> \* o = sqrt(v m): (o - 1/2)^2 <= v m <= (o + 1/2)^2
                        IF v * m >= 65025 THEN o = 255
                        ELSE (2 * o - 1 <= 0 \/ Sq((2 * o) - 1) <= 4 * v * m) /\ 4 * v * m <= Sq((2 * o) + 1)
      [] OTHER -> LET n == e \div one IN IF v > m THEN LET p == PowFx(RDiv(m * 32768, v), e, eq) IN          \* m / (m/v)^e
                       \/ o = 255 /\ (m * 32768) + ((14 + n) * 255) >= 255 * p
                       \/ Abs((o * p) - (m * 32768)) <= (p \div 2) + ((14 + n) * o)
                  ELSE LET x == m * PowFx(RDiv(v * 32768, m), e, eq)          \* at scale 2^15
                       IN Abs(o * 32768 - x) <= 16384 + 3300 + (260 * n)
=============================================================================
