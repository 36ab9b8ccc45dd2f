------------------------------ MODULE PropMisc ------------------------------
(***************************************************************************)
(* Verdicts on recorded calls that cut across the operations: shapes       *)
(* (C05), configurations (C09), conversions (C33), argument checks (C35)   *)
(* and numeric helpers (C36).                                              *)
(***************************************************************************)
EXTENDS PropGeom

------------------------------------------------------------------------------
(* C05: the shape every operation promises, as <<width, height, channels, alpha>>. *)
SameAsInput(im) == <<im.w, im.h, im.c, im.a>>
GrayOps == {"gray", "gray_f32", "avg", "avg3", "avg4"}
MapOutC(e) ==
    LET alpha == AlphaHow(e.p.how) /\ e.in.a
        nf == IF alpha THEN e.in.c - 1 ELSE e.in.c
    IN IF PixelHow(e.p.how) THEN nf + e.p.extra + (IF alpha THEN 1 ELSE 0) ELSE e.in.c
Promised(e) ==
    LET im == e.in p == e.p IN
    CASE e.op \in GrayOps -> <<im.w, im.h, IF im.a THEN 2 ELSE 1, im.a>>
      [] e.op = "crop" -> <<p.w, p.h, im.c, im.a>>
      [] e.op = "subimage" -> <<p.w, p.h, im.c, im.a>>
      [] e.op = "nbr1" -> <<IF p.v THEN 1 ELSE p.n, IF p.v THEN p.n ELSE 1, im.c, im.a>>
      [] e.op = "nbr2" -> <<p.n, p.n, im.c, im.a>>
      [] e.op \in {"scale", "lanczos"} ->
            <<ScaledDim(im.w, p.xf, P2(p.xfq)), ScaledDim(im.h, p.yf, P2(p.yfq)), im.c, im.a>>
      [] e.op = "shear" -> <<im.w + ShearGrow(p.sx, p.sxq, im.h), im.h + ShearGrow(p.sy, p.syq, im.w), im.c, im.a>>
      [] e.op = "map" -> <<im.w, im.h, MapOutC(e), im.a>>
      [] OTHER -> SameAsInput(im)
Returned(e) == IF e.op = "map" THEN e.o.im ELSE e.o
HasShape(o, s) == o.w = s[1] /\ o.h = s[2] /\ o.c = s[3] /\ o.a = s[4] /\ Len(o.d) = s[1] * s[2] * s[3]
C05(e) ==
    /\ e.r = "ok"
    /\ IF e.op = "rotate"
       THEN LET o == e.o IN
            /\ o.c = e.in.c /\ o.a = e.in.a /\ WellFormed(o)
            /\ IF QuarterDeg(e.p) % 360 = 0 THEN <<o.w, o.h>> = (IF QuarterDeg(e.p) % 720 = 0 THEN <<e.in.w, e.in.h>> ELSE <<e.in.h, e.in.w>>)
               ELSE LET d == QuarterDeg(e.p) IN
                    Abs((o.w * 16384) - RotW(e.in, d)) <= 16384 /\ Abs((o.h * 16384) - RotH(e.in, d)) <= 16384
       ELSE HasShape(Returned(e), Promised(e))

------------------------------------------------------------------------------
(* C09: one call, its outcomes under several configurations and schedules. *)
(* 8-bit and exact results agree to the last bit, others to two units of   *)
(* the scale they are recorded at.                                         *)
Fails(r) == r # "ok"
SameImage(a, b) ==
    \/ a = b
    \/ /\ a.w = b.w /\ a.h = b.h /\ a.c = b.c /\ a.a = b.a /\ a.q = b.q /\ a.n = b.n /\ Len(a.d) = Len(b.d)
       /\ a.q > 0 /\ ~(a.x /\ b.x)
       /\ \A i \in 1..Len(a.d) : Abs(a.d[i] - b.d[i]) <= 2
C09(e) ==
    /\ \A i \in 1..Len(e.rs) : e.rs[i].r \in {"ok", "err", "panic"}
    /\ \A i \in 2..Len(e.rs) :
          /\ e.rs[i].r = e.rs[1].r
          /\ (e.rs[1].r = "err" => e.rs[i].ek = e.rs[1].ek)
          /\ (e.rs[1].r = "ok" => IF e.p.img THEN SameImage(e.rs[1].o, e.rs[i].o) ELSE e.rs[1].o = e.rs[i].o)

------------------------------------------------------------------------------
(* C33: conversions.  Widening is checked on decimal texts (t). *)
C33(e) ==
    LET im == e.in p == e.p IN
    /\ e.r = "ok"
    /\ <<e.o.w, e.o.h, e.o.c, e.o.a>> = <<im.w, im.h, im.c, im.a>>
    /\ CASE e.op = "conv" /\ p.to \in {"f32", "f64"} -> e.o.t = im.t
         [] e.op = "conv" /\ p.from \in {"f32", "f64"} ->
               e.o.n = 0 /\ e.o.d = [i \in 1..Len(im.d) |-> Clamp(RDiv(im.d[i], P2(im.q)), 0, 255)]
         [] e.op = "conv" -> Exactly(e.o, im)                        \* there and back
         [] e.op = "rt_u8f" -> Exactly(e.o, im)
         [] e.op = "f2u8" ->
               LET den == p.scale * P2(im.q) IN
               /\ LikeShape(e.o, im) /\ e.o.n = 0
               /\ \A i \in 1..Len(im.d) :
                     LET v == im.d[i] o == e.o.d[i] IN
                     IF v <= 0 THEN o = 0 ELSE IF v >= den THEN o = 255
                     ELSE Abs((2 * o * den) - (2 * 255 * v)) <= den + (den \div 4000) + 1
         [] e.op = "u82f" ->
               /\ LikeShape(e.o, im) /\ e.o.n = 0
               /\ \A i \in 1..Len(im.d) :
                     LET want == im.d[i] * p.scale * P2(e.o.q) IN
                     Abs((255 * e.o.d[i]) - want) <= 255 + (want \div 1000000)
         [] e.op = "scalech" ->
               LET span == p.cmax - p.cmin iq == P2(im.q) oq == P2(e.o.q) IN
               /\ LikeShape(e.o, im) /\ e.o.n = 0
               /\ \A i \in 1..Len(im.d) :
                     LET want == oq * (((im.d[i] - (p.cmin * iq)) * (p.smax - p.smin)) + (p.smin * span * iq)) IN
                     Abs((e.o.d[i] * span * iq) - want) <= Abs(span) * iq

------------------------------------------------------------------------------
(* C35: documented restrictions on arguments. *)
IsOdd(n) == n % 2 = 1
IsSquare(n) == Isqrt(n) * Isqrt(n) = n
InUnit(v, q) == v >= 0 /\ v <= P2(q)
Satisfied(e) ==
    LET p == e.p IN
    CASE e.op \in {"brightness", "brightness_lab"} -> p.b >= -255 /\ p.b <= 255
      [] e.op = "saturation" -> p.s >= -255 /\ p.s <= 255
      [] e.op \in {"contrast", "contrast_lab"} -> InUnit(p.g, p.gq)
      [] e.op = "gamma" -> p.e >= 0
      [] e.op = "histeq" -> p.prec >= 0 /\ InUnit(p.al, p.alq)
      [] e.op = "filter1d" -> IsOdd(Len(p.ker))
      [] e.op = "sep" -> IsOdd(Len(p.vk)) /\ Len(p.vk) = Len(p.hk)
      [] e.op \in {"unsep", "linear"} -> IsOdd(Len(p.ker)) /\ IsSquare(Len(p.ker))
      [] e.op \in {"box", "wavg", "gauss", "gkern", "log", "logkern"} -> IsOdd(p.n)
      [] e.op = "spatial" -> IsOdd(p.n) /\ p.sg >= 0
      [] e.op \in {"threshold", "prewitt", "sobel", "sobelw", "normlap",
                   "erode", "dilate", "majority", "gradient", "open", "close"} -> IsGray(e.in)
      [] e.op = "deriv" -> IsGray(e.in) /\ IsOdd(Len(p.vk)) /\ Len(p.vk) = Len(p.hk)
      [] e.op = "trimmed" -> p.al % 2 = 0 /\ p.al < ((2 * p.r) + 1) * ((2 * p.r) + 1)
      [] e.op = "bilateral" -> p.range >= 0 /\ p.sp >= 0
      [] e.op = "crop" -> CropOk(e.in, p.x, p.y, p.w, p.h)
      [] e.op = "superimpose" -> e.in.c = e.b.c /\ InUnit(p.wt, p.wtq)
      [] e.op = "overlay" -> e.in.c = e.b.c
      [] e.op = "residual" -> <<e.in.w, e.in.h, e.in.c, e.in.a>> = <<e.b.w, e.b.h, e.b.c, e.b.a>>
      [] e.op \in {"scale", "lanczos"} -> p.xf >= 0 /\ p.yf >= 0
      [] e.op = "kernel1" -> IsOdd(Len(p.ker)) /\ Len(p.ker) = p.n
      [] e.op = "kernel2" -> IsOdd(Len(p.ker)) /\ Len(p.ker) = p.n * p.n
      [] e.op \in {"vecmul", "vecmulmut", "vecmuli"} -> Len(p.mat) = Len(p.vec) * Len(p.vec)
      [] e.op = "gaussfn" -> p.sg >= 0
      [] e.op \in {"translate", "reflect", "rotate", "shear", "median", "sharpen", "unsharp", "laplacian",
                   "subimage", "nbr1", "nbr2"} -> TRUE
C35(e) == IF Satisfied(e) THEN e.r = "ok" ELSE e.r = "err" /\ e.ek = "arg"

------------------------------------------------------------------------------
(* C36: numeric helpers *)
MatVec(m, v) ==
    LET n == Len(v) IN
    [i \in 1..n |-> LET F(j) == m[((i - 1) * n) + j] * v[j] IN SumRange(F, 1, n)]
SeqMax(v) == CHOOSE z \in Range(v) : \A u \in Range(v) : u <= z
SeqMin(v) == CHOOSE z \in Range(v) : \A u \in Range(v) : u >= z
One(e) == e.o.d[1]
(* sinc, Lanczos and cubic take v / 2^vq.  sinc at num/den <= 8 from the table, interpolated (2^14). *)
SincF(num, den) ==
    LET z == Abs(num) * 128 i == z \div den f == z % den IN
    SincTab[i + 1] + (((SincTab[i + 2] - SincTab[i + 1]) * f) \div den)
SincAny(num, den) ==        \* sin(pi (i + f)) = (-1)^i sin(pi f)
    LET u == Abs(num) i == u \div den f == u % den IN
    IF i < 8 THEN SincF(num, den)
    ELSE (IF i % 2 = 0 THEN 1 ELSE -1) * RDiv(SincF(f, den) * f, u)
LanczosF(num, den, a) == IF Abs(num) >= a * den THEN 0 ELSE RDiv(SincAny(num, den) * SincF(num, den * a), 16384)
GaussFn(x, xq, sg, sgq) ==          \* at scale 2^15
    LET u == RDiv(x * x * 512 * P2(2 * sgq), sg * sg * P2(2 * xq))
        g == ExpNeg(u)                                       \* 2^15
    IN (RDiv(g * 5215, 4096) * P2(2 * sgq)) \div (8 * sg * sg)
(* Far from the centre, where 2^15 has no digits left: exp(-u) as exp(-u/4)^4, kept to 11 bits, at scale 2^oq. *)
RECURSIVE Bits11(_, _)
Bits11(a, s) == IF a < 2048 THEN <<a, s>> ELSE Bits11(RDiv(a, 2), s + 1)
GaussTail(x, xq, sg, sgq, oq) ==
    LET f == ExpNeg(RDiv(x * x * 128 * P2(2 * sgq), sg * sg * P2(2 * xq)))
        m == Bits11(f * f, 0)
        amp2 == RDiv(5215 * P2(2 * sgq), 16384 * sg * sg)          \* twice the height
    IN (m[1] * m[1] * amp2) \div P2((61 - oq) - (2 * m[2]))
C36(e) ==
    LET p == e.p IN
    /\ e.r = "ok"
    /\ CASE e.op \in {"vecmul", "vecmulmut", "vecmuli"} ->
               \* integers; recorded at scale matq + vecq when fractions are used
               e.o.n = 0 /\ e.o.x /\ e.o.d = MatVec(p.mat, p.vec)
         [] e.op \in {"max3", "max4"} -> One(e) = SeqMax(p.v) /\ e.o.x
         [] e.op \in {"min3", "min4"} -> One(e) = SeqMin(p.v) /\ e.o.x
         [] e.op = "coords" -> e.o = <<p.k % p.w, p.k \div p.w>>
         [] e.op = "table" -> e.o = [i \in 1..256 |-> (((i - 1) * p.m) + p.b) % 256]
         [] e.op = "distance" ->
               LET s == ((p.x1 - p.x2) * (p.x1 - p.x2)) + ((p.y1 - p.y2) * (p.y1 - p.y2)) IN
               /\ One(e) >= 0 /\ Sq(Max2(One(e) - 1, 0)) <= s * P2(2 * e.o.q) /\ s * P2(2 * e.o.q) <= Sq(One(e) + 1)
         [] e.op = "clampz" -> One(e) = Max2(p.v, 0) /\ e.o.x
         [] e.op = "sinc" -> Abs(One(e) - SincAny(p.v, P2(p.vq))) <= 2 /\ (p.v = 0 => One(e) = 16384)
         [] e.op = "lanczosk" -> 
               /\ Abs(One(e) - LanczosF(p.v, P2(p.vq), p.a)) <= 3
               /\ (((p.v * 12) % P2(p.vq) = 0 /\ p.a \in LanczosSizes) => Abs(One(e) - LanczosQ((p.v * 12) \div P2(p.vq), p.a)) <= 2)
         [] e.op = "cubic" ->
               LET n == P2(p.vq) D == 6 * n * n * n IN
               Abs((One(e) * D) - (P2(e.o.q) * CubicNum(p.v, n))) <= (IF e.o.q > 15 THEN 3 * D ELSE D)
         [] e.op = "gaussfn" /\ e.r = "ok" /\ e.o.q > 15 ->
               LET want == GaussTail(p.v, p.vq, p.sg, p.sgq, e.o.q) IN
               Abs(One(e) - want) <= 2 + (want \div 16)
         [] e.op = "gaussfn" ->
               LET want == GaussFn(p.v, p.vq, p.sg, p.sgq) IN
               Abs(One(e) - want) <= 4 + (Abs(want) \div 500) + (16 * P2(2 * p.sgq)) \div (p.sg * p.sg)
         [] e.op = "labfn" -> Abs(LabF(One(e)) - p.v) <= 6
         [] e.op = "labinv" -> Abs(One(e) - LabF(p.v)) <= 6
         [] e.op = "tristim" ->
               LET w == White(p.white) IN
               \A k \in 1..3 : Abs((e.o.d[k] * 16) - (100 * w[k])) <= 100
=============================================================================
