----------------------------- MODULE Transform -----------------------------
(***************************************************************************)
(* Geometric transformations (C28-C32).                                    *)
(***************************************************************************)
EXTENDS FixMath

CropOk(im, x, y, w, h) == x + w <= im.w /\ y + h <= im.h
Crop(im, x, y, w, h) ==
    LET F(i, j, k) == At(im, x + i, y + j, k) IN Build(w, h, im.c, im.a, im.q, F)
Translate(im, x, y) ==
    LET F(i, j, k) == IF i >= x /\ j >= y THEN At(im, i - x, j - y, k) ELSE 0
    IN Build(im.w, im.h, im.c, im.a, im.q, F)
Reflect(im, axis) ==
    LET F(i, j, k) == IF axis = "Horizontal" THEN At(im, i, (im.h - 1) - j, k) ELSE At(im, (im.w - 1) - i, j, k)
    IN Build(im.w, im.h, im.c, im.a, im.q, F)
Covered(bk, fr, x, y, i, j) == i >= x /\ j >= y /\ i - x < fr.w /\ j - y < fr.h
Overlay(bk, fr, x, y) ==
    LET F(i, j, k) == IF Covered(bk, fr, x, y, i, j) THEN At(fr, i - x, j - y, k) ELSE At(bk, i, j, k)
    IN Build(bk.w, bk.h, bk.c, bk.a, bk.q, F)
(* weight = n / 2^m; both images at scale q, the result at scale q + m *)
Superimpose(bk, fr, x, y, n, m) ==
    LET F(i, j, k) == IF Covered(bk, fr, x, y, i, j)
                      THEN n * At(bk, i, j, k) + (P2(m) - n) * At(fr, i - x, j - y, k)
                      ELSE P2(m) * At(bk, i, j, k)
    IN Build(bk.w, bk.h, bk.c, bk.a, bk.q + m, F)
Residual(f, g) ==
    LET F(x, y, k) == At(f, x, y, k) - At(g, x, y, k) IN Build(f.w, f.h, f.c, f.a, f.q, F)

------------------------------------------------------------------------------
(* Scaling by fn/fd *)
ScaledDim(n, fn, fd) == RDiv(n * fn, fd)
CeilDiv(a, b) == -((-a) \div b)
NearestSrc(x, fn, fd, n) == Min2(CeilDiv((x + 1) * fd, fn) - 1, n - 1)
ScaleNearest(im, xn, xd, yn, yd) ==
    LET F(i, j, k) == At(im, NearestSrc(i, xn, xd, im.w), NearestSrc(j, yn, yd, im.h), k)
    IN Build(ScaledDim(im.w, xn, xd), ScaledDim(im.h, yn, yd), im.c, im.a, im.q, F)

(* Bilinear: exact value of the result times xn * yn. *)
BilinearNum(im, xn, xd, yn, yd, i, j, k) ==
    LET sx == (i * xd) \div xn ax == (i * xd) % xn
        sy == (j * yd) \div yn ay == (j * yd) % yn
        V(x, y) == At(im, Min2(x, im.w - 1), Min2(y, im.h - 1), k)
    IN (xn - ax) * (yn - ay) * V(sx, sy) + ax * (yn - ay) * V(sx + 1, sy)
       + (xn - ax) * ay * V(sx, sy + 1) + ax * ay * V(sx + 1, sy + 1)

(* Bicubic (B-spline) weight of a tap at distance t/n, times 6 n^3. *)
Pos3(v) == IF v <= 0 THEN 0 ELSE v * v * v
CubicNum(t, n) == (Pos3(t + (2 * n)) + 6 * Pos3(t)) - (4 * (Pos3(t + n) + Pos3(t - n)))
BicubicNum(im, xn, xd, yn, yd, i, j, k) ==          \* times 36 xn^3 yn^3
    LET sx == (i * xd) \div xn ax == (i * xd) % xn
        sy == (j * yd) \div yn ay == (j * yd) % yn
        F(t) == LET m == (t \div 4) - 1 n == (t % 4) - 1 IN
                CubicNum((m * xn) - ax, xn) * CubicNum(ay - (n * yn), yn) * AtC(im, sx + m, sy + n, k)
    IN SumRange(F, 0, 15)

(* Lanczos with size a at scale 2^8 of the samples; offsets are multiples of a twelfth. *)
LanczosVal(im, a, xn, xd, yn, yd, i, j, k) ==
    LET sx == (i * xd) \div xn ax == (12 * ((i * xd) % xn)) \div xn
        sy == (j * yd) \div yn ay == (12 * ((j * yd) % yn)) \div yn
        G(m) == LET H(n) == RDiv(LanczosQ(ay - (12 * n), a) * AtC(im, sx + m, sy + n, k), 64)
                IN RDiv(LanczosQ(ax - (12 * m), a) * RDiv(SumRange(H, 1 - a, a), 16), 1024)
    IN SumRange(G, 1 - a, a)                        \* at scale 2^8
TwelfthExact(n, xn, xd) == \A i \in 0..n : (12 * ((i * xd) % xn)) % xn = 0

------------------------------------------------------------------------------
(* Rotation by d quarter degrees counterclockwise.  Pixels of the input carry *)
(* distinct non-zero values, so a result pixel names its source.           *)
QuarterTurn(im, n) ==                               \* n quarter turns counterclockwise
    CASE n = 0 -> LET F(i, j, k) == At(im, i, j, k) IN Build(im.w, im.h, im.c, im.a, im.q, F)
      [] n = 1 -> LET F(i, j, k) == At(im, (im.w - 1) - j, i, k) IN Build(im.h, im.w, im.c, im.a, im.q, F)
      [] n = 2 -> LET F(i, j, k) == At(im, (im.w - 1) - i, (im.h - 1) - j, k) IN Build(im.w, im.h, im.c, im.a, im.q, F)
      [] n = 3 -> LET F(i, j, k) == At(im, j, (im.h - 1) - i, k) IN Build(im.h, im.w, im.c, im.a, im.q, F)

Cos(d) == CosTab[(d % 1440) + 1]
Sin(d) == SinTab[(d % 1440) + 1]
QuarterDeg(p) == p.deg * (4 \div P2(p.degq))
RotW(im, d) == im.w * Abs(Cos(d)) + im.h * Abs(Sin(d))      \* times 2^14
RotH(im, d) == im.w * Abs(Sin(d)) + im.h * Abs(Cos(d))

(* Position of the source centre of result pixel (i, j), relative to the   *)
(* source's top left corner, times 2^13 (half pixels times 2^14 halved).   *)
RotSrcX(im, o, d, i, j) == (im.w * 8192) + (((((2*i) + 1 - o.w) * Cos(d)) - (((2*j) + 1 - o.h) * Sin(d))) \div 2)
RotSrcY(im, o, d, i, j) == (im.h * 8192) + (((((2*i) + 1 - o.w) * Sin(d)) + (((2*j) + 1 - o.h) * Cos(d))) \div 2)
(* Here x is 2^14 times the coordinate along the source's rows: the centre of source pixel s is s + 1/2. *)

------------------------------------------------------------------------------
(* Shear by sn / 2^sq along one axis: shift of line y out of n. *)
ShearShift(sn, sq, y, n) == IF sn > 0 THEN (sn * (n - y)) \div P2(sq) ELSE ((-sn) * y) \div P2(sq)
ShearGrow(sn, sq, n) == (Abs(sn) * n) \div P2(sq)
ShearX(im, sn, sq) ==
    LET F(i, j, k) == LET s == i - ShearShift(sn, sq, j, im.h) IN
                      IF s >= 0 /\ s < im.w THEN At(im, s, j, k) ELSE 0
    IN Build(im.w + ShearGrow(sn, sq, im.h), im.h, im.c, im.a, im.q, F)
ShearY(im, sn, sq) ==
    LET F(i, j, k) == LET s == j - ShearShift(sn, sq, i, im.w) IN
                      IF s >= 0 /\ s < im.h THEN At(im, i, s, k) ELSE 0
    IN Build(im.w, im.h + ShearGrow(sn, sq, im.w), im.c, im.a, im.q, F)
=============================================================================
