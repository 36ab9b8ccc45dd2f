------------------------------ MODULE PropGeom ------------------------------
(***************************************************************************)
(* Verdicts on recorded calls: sub-images (C02), morphology (C25, C26),    *)
(* summed-area tables (C27) and geometry (C28 - C32).                      *)
(***************************************************************************)
EXTENDS PropFilter, Morph, Transform

C02(e) == SubOk(e) /\ (e.r = "ok" => e.o.oob)

------------------------------------------------------------------------------
C25(e) ==
    /\ e.r = "ok"
    /\ Exactly(e.o, CASE e.op = "erode" -> Erode(e.in, e.p.r)
                      [] e.op = "dilate" -> Dilate(e.in, e.p.r)
                      [] e.op = "majority" -> Majority(e.in, e.p.r)
                      [] e.op = "gradient" -> Gradient(e.in, e.p.r))

Forced(im) == [im EXCEPT !.d = TLCEval(im.d)]
Opening(im, r) == Dilate(Forced(Erode(im, r)), r)
Closing(im, r) == Erode(Forced(Dilate(im, r)), r)
LeqColour(f, g) == \A i \in 1..Len(f.d) : IsAlphaIdx(f, i) \/ f.d[i] <= g.d[i]
Twice(Op(_, _), im, r) == Op(Forced(Op(im, r)), r)
C26(e) ==
    LET r == e.p.r IN
    /\ e.r = "ok"
    /\ CASE e.op = "open" ->
               Exactly(e.o, Opening(e.in, r)) /\ LeqColour(e.o, e.in) /\ (r = 0 => e.o.d = e.in.d)
         [] e.op = "close" ->
               /\ Exactly(e.o, Closing(e.in, r)) /\ (r = 0 => e.o.d = e.in.d)
               /\ \A x \in r..((e.in.w-1)-r), y \in r..((e.in.h-1)-r) : At(e.in, x, y, 0) <= At(e.o, x, y, 0)
         [] e.op = "open2" -> Exactly(e.o, Opening(e.in, r))        \* idempotent
         [] e.op = "close2" -> Exactly(e.o, Twice(Closing, e.in, r))
         [] e.op \in {"erode", "dilate"} -> (r = 0 => Exactly(e.o, e.in))
    \* paired calls: in is inside in2
    /\ (e.p.pair => e.r2 = "ok" /\ (LeqColour(e.in, e.in2) => LeqColour(e.o, e.o2)))

------------------------------------------------------------------------------
VecIs(o, n, F(_)) == Len(o.d) = n /\ o.n = 0 /\ o.x /\ \A k \in 1..n : o.d[k] = F(k - 1)
C27(e) ==
    /\ e.r = "ok"
    /\ CASE e.op = "sat" -> e.o.n = 0 /\ e.o.x /\ e.o.q = e.in.q /\ IsSat(e.o, e.in)
         [] e.op = "rectsum" -> e.o.q = e.in.q /\
               VecIs(e.o, e.in.c, LAMBDA k : RectSum(e.in, k, e.p.x0, e.p.y0, e.p.x1, e.p.y1))
         [] e.op = "rectof" -> e.o.q = e.in.q /\
               VecIs(e.o, e.in.c, LAMBDA k :
                  LET T(x, y) == SatAt(e.in, x, y, k) IN
                  ((T(e.p.x1, e.p.y1) - T(e.p.x1, e.p.y0 - 1)) - T(e.p.x0 - 1, e.p.y1)) + T(e.p.x0 - 1, e.p.y0 - 1))

------------------------------------------------------------------------------
C28(e) ==
    LET p == e.p IN
    IF e.op = "crop" /\ ~CropOk(e.in, p.x, p.y, p.w, p.h) THEN e.r = "err" /\ e.ek = "arg"
    ELSE /\ e.r = "ok"
         /\ CASE e.op = "crop" -> Exactly(e.o, Crop(e.in, p.x, p.y, p.w, p.h))
              [] e.op = "translate" -> Exactly(e.o, Translate(e.in, p.x, p.y))
              [] e.op = "reflect" -> Exactly(e.o, Reflect(e.in, p.axis))
              [] e.op = "reflect2" -> Exactly(e.o, e.in)
              [] e.op = "overlay" -> Exactly(e.o, Overlay(e.in, e.b, p.x, p.y))

C29(e) ==
    /\ e.r = "ok"
    /\ CASE e.op = "superimpose" -> Exactly(e.o, Superimpose(e.in, e.b, e.p.x, e.p.y, e.p.wt, e.p.wtq))
         [] e.op = "residual" ->
               /\ Exactly(e.o, Residual(e.in, e.b))
               /\ \A i \in 1..Len(e.in.d) : e.o.d[i] + e.b.d[i] = e.in.d[i]

------------------------------------------------------------------------------
(* C30 *)
ScaleShape(e, o) == SameShape(o, ScaledDim(e.in.w, e.p.xf, P2(e.p.xfq)), ScaledDim(e.in.h, e.p.yf, P2(e.p.yfq)), e.in.c, e.in.a)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
C30(e) ==
    LET im == e.in o == e.o
        gx == Gcd(e.p.xf, P2(e.p.xfq)) gy == Gcd(e.p.yf, P2(e.p.yfq))
        xn == e.p.xf \div gx xd == P2(e.p.xfq) \div gx
        yn == e.p.yf \div gy yd == P2(e.p.yfq) \div gy
        up == P2(o.q - im.q)
        m == IF e.op = "lanczos" THEN "lanczos" ELSE e.p.method
        a == IF e.op = "lanczos" THEN e.p.n ELSE 3
        far == Max2(im.w, im.h) \div 48       \* positions are 24 bits wide: what is left of them for the fraction
        Every(P(_, _, _)) == \A i \in 0..(o.w-1), j \in 0..(o.h-1), k \in 0..(im.c-1) : P(i, j, k)
    IN
    /\ e.r = "ok"
    /\ ScaleShape(e, o) /\ o.n = 0
    /\ Size(o) > 0 =>
       /\ (xn = xd /\ yn = yd /\ m # "bicubic") =>
             \A i \in 1..Len(im.d) : Abs(o.d[i] - (up * im.d[i])) <= (IF m = "lanczos" THEN 1 ELSE 0)
       /\ (IsConst(im) /\ m # "lanczos") => \A i \in 1..Len(o.d) : Abs(o.d[i] - (up * im.d[((i - 1) % im.c) + 1])) <= 1
       /\ CASE m = "nn" -> o.x /\ Exactly(o, ScaleNearest(im, xn, xd, yn, yd))
            [] m = "bilinear" -> Every(LAMBDA i, j, k :
                  Abs((At(o, i, j, k) * (xn * yn)) - (up * BilinearNum(im, xn, xd, yn, yd, i, j, k))) <= (1 + far) * (xn * yn))
            [] m = "bicubic" -> Every(LAMBDA i, j, k :
                  LET D == (36 * xn * xn * xn) * (yn * yn * yn)
                      z == BicubicNum(im, xn, xd, yn, yd, i, j, k)
                  IN Abs(At(o, i, j, k) - ((up * (z \div D)) + ((up * (z % D)) \div D))) <= 2 + (far \div 2))
            [] m = "lanczos" ->
                  (TwelfthExact(o.w, xn, xd) /\ TwelfthExact(o.h, yn, yd) /\ a \in LanczosSizes) => Every(LAMBDA i, j, k :
                     Abs(At(o, i, j, k) - LanczosVal(im, a, xn, xd, yn, yd, i, j, k)) <= 28 + (4 * a))

------------------------------------------------------------------------------
(* C31.  Source pixel t (row-major, from 0) holds 4t + k + 1 in channel k. *)
Tagged(im) == \A i \in 1..Len(im.d) : im.d[i] = (4 * ((i - 1) \div im.c)) + ((i - 1) % im.c) + 1
Turns(d) == (d % 1440) \div 360              \* d in quarter degrees
RotPixelOk(im, o, d, i, j) ==
    LET v == At(o, i, j, 0) t == (v - 1) \div 4
        px == RotSrcX(im, o, d, i, j) py == RotSrcY(im, o, d, i, j)
        black == \A k \in 0..(im.c-1) : At(o, i, j, k) = 0
        dx == (((t % im.w) * 16384) + 8192) - px
        dy == (((t \div im.w) * 16384) + 8192) - py
    IN IF black
       THEN px < 24576 \/ py < 24576 \/ px > (im.w * 16384) - 24576 \/ py > (im.h * 16384) - 24576
       ELSE /\ v > 0 /\ t < Size(im)
            /\ \A k \in 0..(im.c-1) : At(o, i, j, k) = (4 * t) + k + 1      \* one source pixel, unaltered
            /\ Abs(dx) <= 24576 /\ Abs(dy) <= 24576
            /\ (dx * dx) + (dy * dy) <= 24576 * 24576
C31(e) ==
    LET im == e.in o == e.o d == QuarterDeg(e.p) IN
    /\ e.r = "ok"
    /\ o.n = 0 /\ o.x /\ o.c = im.c /\ o.a = im.a /\ WellFormed(o)
    /\ IF d % 360 = 0 THEN Exactly(o, QuarterTurn(im, Turns(d)))
       ELSE /\ Abs((o.w * 16384) - RotW(im, d)) <= 16384
            /\ Abs((o.h * 16384) - RotH(im, d)) <= 16384
            /\ Tagged(im) => \A i \in 0..(o.w-1), j \in 0..(o.h-1) : RotPixelOk(im, o, d, i, j)

------------------------------------------------------------------------------
(* C32.  Along one axis exactly; along both, every source pixel (x, y)     *)
(* lands on a definite position and a result pixel carries one of those.   *)
ShearLand(im, sx, sxq, sy, syq, x, y) ==
    LET m == Max2(sxq, syq)
        gx == ((x * P2(sxq)) - (sx * y)) + (IF sx > 0 THEN sx * im.h ELSE 0)
        gy == ((y * P2(syq)) - (sy * x)) + (IF sy > 0 THEN sy * im.w ELSE 0)
    IN <<gx \div P2(sxq), gy \div P2(syq)>>
ShearBoth(e) ==
    LET im == e.in p == e.p o == e.o
        w == im.w + ShearGrow(p.sx, p.sxq, im.h) h == im.h + ShearGrow(p.sy, p.syq, im.w)
        land == TLCEval([t \in 0..(Size(im)-1) |-> ShearLand(im, p.sx, p.sxq, p.sy, p.syq, t % im.w, t \div im.w)])
    IN /\ SameShape(o, w, h, im.c, im.a) /\ o.n = 0 /\ o.x
       /\ \A i \in 0..(w-1), j \in 0..(h-1) :
             LET src == {t \in 0..(Size(im)-1) : land[t] = <<i, j>>} IN
             IF src = {} THEN \A k \in 0..(im.c-1) : At(o, i, j, k) = 0
             ELSE \E t \in src : Pix(o, i, j) = PixI(im, t)
C32(e) ==
    /\ e.r = "ok"
    /\ IF e.p.sy = 0 THEN Exactly(e.o, ShearX(e.in, e.p.sx, e.p.sxq))
       ELSE IF e.p.sx = 0 THEN Exactly(e.o, ShearY(e.in, e.p.sy, e.p.syq))
       ELSE ShearBoth(e)
=============================================================================
