-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The specification itself, checked: for each property the general laws   *)
(* its statement promises (round trips, identities, monotonicity, order    *)
(* and composition laws, independence of the way of computing) are         *)
(* theorems of the operators the recorded outcomes are judged with.  Every *)
(* initial state is one instance from an exhaustive small scope; LInv is   *)
(* the law.  Environment: PROP, TIER, SEED.                                *)
(***************************************************************************)
EXTENDS Gen

F1(im) == [im EXCEPT !.d = TLCEval(im.d)]
Eq(f, g) == f.w = g.w /\ f.h = g.h /\ f.c = g.c /\ f.a = g.a /\ f.q = g.q /\ f.d = g.d
Gray1(w, h, d) == Im(w, h, 1, FALSE, d)
DimsUpTo(n) == (1..n) \X (1..n)
(* lattices of samples and colours *)
LatV == {0, 1, 2, 17, 63, 64, 100, 127, 128, 129, 200, 253, 254, 255, (Seed * 37) % 256}
LatC == {0, 1, 30, 85, 127, 128, 170, 200, 254, 255, (Seed * 53) % 256}
Col == LatC \X LatC \X LatC

------------------------------------------------------------------------------
L02i == \E w \in 1..4 : \E h \in 1..4 : \E x \in 0..(w-1) : \E y \in 0..(h-1) : \E n \in 0..9 : c = <<w, h, x, y, n>>
L02 == LET im == [w |-> c[1], h |-> c[2]] x == c[3] y == c[4] n == c[5] IN
    \A v \in BOOLEAN : \A t \in 0..(n - 1) :
        LET nx == Nbr1X(im, x, n, t, v) ny == Nbr1Y(im, y, n, t, v) IN
        /\ Inside(im, nx, ny)                                          \* padding never leaves the image
        /\ (t = n \div 2 => nx = x /\ ny = y)                          \* the centre is the pixel itself
        /\ (t + 1 < n => Nbr1X(im, x, n, t + 1, v) \in nx..(nx + 1) /\ Nbr1Y(im, y, n, t + 1, v) \in ny..(ny + 1))
        /\ \A q \in 0..(im.w - 1) : \A s \in 0..(im.h - 1) :           \* the nearest pixel of the line
              LET dx == IF v THEN 0 ELSE (x - (n \div 2)) + t dy == IF v THEN (y - (n \div 2)) + t ELSE 0 IN
              v \/ Abs(nx - dx) <= Abs(q - dx)

L07i == \E v \in LatV : \E b \in -255..255 : c = <<v, b>>
L07 == LET v == c[1] b == c[2] IN
    /\ BrightV(v, b) \in 0..255
    /\ (b = 0 => BrightV(v, b) = v)
    /\ (v + b \in 0..255 => BrightV(v, b) = v + b)
    /\ \A u \in LatV : u <= v => BrightV(u, b) <= BrightV(v, b)
    /\ \A a \in {0, 1, 60, 255} : (a >= 0 /\ b >= 0 /\ a + b <= 255) => BrightV(BrightV(v, a), b) = BrightV(v, a + b)
    /\ (b > 0 => BrightV(BrightV(v, b), -b) <= v) /\ (b < 0 => BrightV(BrightV(v, b), -b) >= v)

L10i == \E p \in Col : c = p
L10 == LET m == Mean3V(c) IN
    /\ Min3(c[1], c[2], c[3]) <= m /\ m <= Max3(c[1], c[2], c[3])
    /\ m = Mean3V(<<c[2], c[3], c[1]>>) /\ m = Mean3V(<<c[2], c[1], c[3]>>)
    /\ (IsGrayPix(c) => m = c[1])
    /\ LET im == Im(1, 1, 4, TRUE, c \o <<9>>) IN Grayscale(im).d = <<m, 9>>

L11 == LET h == TLCEval(Hsv(c)) r == TLCEval(Rgb(h)) mx == Max3(c[1], c[2], c[3]) mn == Min3(c[1], c[2], c[3]) IN
    /\ \A k \in 1..3 : h[k] \in 0..255 /\ r[k] \in 0..255
    /\ h[3] = mx /\ (h[2] = 0) = (mx = 0 \/ 255 * (mx - mn) < mx)
    /\ (mn = 0 /\ mx > 0 => h[2] = 255)
    /\ Max3(r[1], r[2], r[3]) = mx                          \* the round trip keeps the value
    /\ \A k \in 1..3 : Abs(r[k] - c[k]) <= 20
    /\ \A k \in 1..3 : HueNum(c) <= 6 * (mx - mn)
    \* the exact float HSV of p, put back by the exact inverse, is p
    /\ (mx > mn => LET num == HueNum(c) range == mx - mn sec == (num \div range) % 6 f == num % range
                       up == (mn * range) + (f * range) dn == (mx * range) - (f * range) IN
          CASE sec = 0 -> c[2] * range = up [] sec = 1 -> c[1] * range = dn [] sec = 2 -> c[3] * range = up
            [] sec = 3 -> c[2] * range = dn [] sec = 4 -> c[1] * range = up [] OTHER -> c[3] * range = dn)
L12i == \E p \in Col : \E s \in {-255, -128, -1, 0, 1, 77, 255} : c = <<p, s>>
L12 == LET p == c[1] s == c[2] r == TLCEval(SatV(p, s)) IN
    /\ Max3(r[1], r[2], r[3]) = Max3(p[1], p[2], p[3])
    /\ (s = 0 => r = Rgb(Hsv(p)))
    /\ (s = -255 => IsGrayPix(r))
    /\ (IsGrayPix(p) /\ s <= 0 => r = p)
    /\ \A t \in {0, 1, 77} : t >= s => LET r2 == SatV(p, t) IN Min3(r2[1], r2[2], r2[3]) <= Min3(r[1], r[2], r[3])

(* the tables: monotone, inverse to each other, white and black where they belong *)
L13i == (\E v \in 0..255 : c = <<v>>) \/ (\E p \in Col : Keep(p[1] + p[2] + p[3], 3) /\ c = p)
L13 == IF Len(c) = 1
    THEN LET v == c[1] IN
         /\ SrgbLevel(SrgbLin[v + 1]) = v                              \* a light level maps back to its sample
         /\ (v < 255 => SrgbLin[v + 1] < SrgbLin[v + 2] /\ LStarTab[v + 1] < LStarTab[v + 2])
         /\ (v > 0 => SrgbThr[v] > SrgbLin[v] /\ SrgbThr[v] <= SrgbLin[v + 1])
         /\ (v = 0 => SrgbLin[1] = 0 /\ SrgbLin[256] = 32768 /\ LStarTab[1] = 0 /\ LStarTab[256] = 409600)
    ELSE LET lin == TLCEval(LinOf(c)) xyz == TLCEval(XyzOf(lin)) IN
         /\ \A k \in 1..3 : Abs(RgbRow(k - 1, xyz[1], xyz[2], xyz[3]) - lin[k]) <= 12
         /\ \A wh \in {"D50", "D65"} :
              LET lab == TLCEval(LabOf(c, wh)) back == LabToLin(lab[1], lab[2], lab[3], wh) IN
              /\ \A k \in 1..3 : Renders(c[k], back[k], 60, 0)          \* the specified round trip is the identity
              /\ lab[1] >= -40 /\ lab[1] <= 409600 + 120
              /\ (IsGrayPix(c) => Abs(lab[1] - LStarTab[c[1] + 1]) <= 120)
              /\ (IsGrayPix(c) /\ wh = "D65" => Abs(lab[2]) <= 600 /\ Abs(lab[3]) <= 600)

L14i == (\E v \in 0..255 : \E g \in {0, 1, 64, 127, 128, 129, 255, 256} : c = <<"c", v, g>>)
        \/ (\E v \in LatV : \E e \in {8, 16, 32, 48, 4, 12, 20} : \E m \in {1, 100, 200, 255} : Keep(v + e + m, 3) /\ c = <<"g", v, e, m>>)
L14 == IF c[1] = "c"
    THEN LET v == c[2] g == c[3] o == ContrastV(v, g, 8) IN
         o \in 0..255 /\ o <= v /\ (g = 256 => o = v) /\ (v = 0 => o = 0) /\ (v < 255 => o <= ContrastV(v + 1, g, 8))
         /\ Abs((2 * 256 * o) - (2 * v * g)) <= 256
    ELSE LET v == c[2] e == c[3] m == c[4] ok == TLCEval({o \in 0..255 : GammaOk(v, o, m, e, 4)}) IN
         /\ ok # {} /\ \A o1 \in ok : \A o2 \in ok : Abs(o1 - o2) <= (IF e \in {8, 16, 32, 48} THEN 1 ELSE IF v <= m THEN 2 ELSE 2 + (o1 \div 4))
         \* the same exponent written with more bits admits the same levels (but for its own rounding)
         /\ LET fine == TLCEval({o \in 0..255 : GammaOk(v, o, m, 64 * e, 10)}) IN
            fine # {} /\ \A o1 \in ok : \E o2 \in fine : Abs(o1 - o2) <= (IF v <= m THEN 1 ELSE 1 + (o1 \div 8))
         \* a little more of the exponent moves the level down below m and up above it
         /\ \A o1 \in ok : \E o2 \in 0..255 : GammaOk(v, o2, m, e + 1, 4) /\ (IF v <= m THEN o2 <= o1 + 1 ELSE o2 + 1 + (o1 \div 8) >= o1)
         /\ (e = 16 => ok = {v}) /\ (v = m => v \in ok) /\ (v = 0 => 0 \in ok)
         /\ \A u \in {v + 1, v + 27} : u <= 255 => \E o2 \in 0..255 : GammaOk(u, o2, m, e, 4) /\ \A o1 \in ok : o2 >= o1 - 1

(* identity is allowed by the rendering rule; the rule pins each channel to a few levels *)
L15i == \E p \in Col : Keep(p[1] + p[2] + p[3], 3) /\ c = p
L15For(p) == LET q == TLCEval(LabOf(p, "D50")) lin == TLCEval(LabToLin(q[1], q[2], q[3], "D50")) IN
    /\ RendersLab(p, q[1], q[2], q[3], "D50", 160, 1)
    /\ InGamut(lin, 400)
    /\ \A k \in 1..3 : SrgbLevel(lin[k] + 160) - SrgbLevel(lin[k] - 160) <= (IF lin[k] > 700 THEN 10 ELSE 36)
    /\ BiasL(255) = 409600 /\ BiasL(0) = 0 /\ BiasL(-51) = -81920
    /\ NotDarker(p, p)
    /\ ((\A k \in 1..3 : p[k] <= 250) => ~NotDarker([k \in 1..3 |-> p[k] + 5], p))
L15 == L15For(c)

L16i == \E n \in 1..4 : \E i \in 0..((4 ^ n) - 1) : c = Seqn(i, n, <<0, 3, 4, 9>>)
L16 == LET n == Len(c) up(z) == Cardinality({t \in 1..n : c[t] <= z}) top == CHOOSE z \in Range(c) : \A u \in Range(c) : u <= z IN
    /\ up(top) = n
    /\ \A s \in Range(c) : \A t \in Range(c) : s < t => up(s) < up(t)
    /\ \A al \in {0, 1, 2} : \A s \in 1..n : \A t \in 1..n : c[s] <= c[t] =>
          (al * 100 * up(c[s])) + ((2 - al) * 10 * c[s] * n) <= (al * 100 * up(c[t])) + ((2 - al) * 10 * c[t] * n)

------------------------------------------------------------------------------
L17i == \E z \in DimsUpTo(3) : \E i \in 0..26 : \E j \in 0..26 : Keep(i + (3 * j) + z[1], 11) /\
          c = [im |-> F1(Gray1(z[1], z[2], [t \in 1..(z[1] * z[2]) |-> ((t * t * 7) + i) % 11])), v |-> TLCEval(Seqn(i, 3, <<-1, 0, 2>>)), h |-> TLCEval(Seqn(j, 3, <<3, 1, -2>>))]
L17 == LET im == c.im v == c.v h == c.h
           col == F1(Filter1D(im, v, 0, TRUE)) row == F1(Filter1D(im, h, 0, FALSE)) IN
    /\ Eq(FilterSep(im, v, h, 0), Filter1D(col, h, 0, FALSE))            \* column pass, then row pass
    /\ Eq(FilterSep(im, v, h, 0), Filter1D(row, v, 0, TRUE))             \* either order
    /\ Eq(FilterSep(im, v, h, 0), Filter2D(im, Outer(v, h), 0))          \* the square filter by the outer product
    /\ Eq(Filter1D(im, <<1>>, 0, TRUE), im) /\ Eq(Filter2D(im, Unit(9, 5), 0), im)
    /\ LET im2 == F1([im EXCEPT !.d = [t \in 1..Len(@) |-> (2 * @[t]) + t]]) dif == F1([im EXCEPT !.d = [t \in 1..Len(@) |-> @[t] + t]]) IN
       \A t \in 1..Len(im.d) : Filter1D(im2, v, 0, FALSE).d[t] = Filter1D(im, v, 0, FALSE).d[t] + Filter1D(dif, v, 0, FALSE).d[t]
L18i == (\E i \in 0..26 : \E j \in 0..26 : c = <<"o", TLCEval(Seqn(i, 3, <<-2, 0, 3>>)), TLCEval(Seqn(j, 3, <<-1, 0, 5>>))>>)
        \/ \E i \in 0..((3 ^ 9) - 1) : Keep(i, 17) /\ c = <<"k", TLCEval(Seqn(i, 9, <<-1, 0, 1>>))>>
L18 == IF c[1] = "o" THEN IsOuter(Outer(c[2], c[3]), 3)
       ELSE LET k == c[2] IN                                              \* outer product iff every 2 x 2 minor vanishes
            IsOuter(k, 3) = (\A a \in 0..2 : \A b \in 0..2 : \A d \in 0..2 : \A f \in 0..2 :
                k[(3 * a) + d + 1] * k[(3 * b) + f + 1] = k[(3 * a) + f + 1] * k[(3 * b) + d + 1])
L19i == \E n \in {1, 3, 5, 7, 9} : \E sg \in 1..12 : c = <<n, sg>>
L19 == LET n == c[1] sg == c[2] w == TLCEval(GaussW(n, sg, 1)) m == n \div 2 IN
    /\ \A t \in 1..(n * n) : w[t] >= 0 /\ w[t] <= w[((n * n) + 1) \div 2]
    /\ \A t \in 1..(n * n) : w[t] = w[((n * n) + 1) - t]
    /\ w[((n * n) + 1) \div 2] = 32768
    /\ \A i \in 0..(n - 1) : \A j \in 0..(n - 1) : w[(i * n) + j + 1] = w[(j * n) + i + 1] /\ w[(i * n) + j + 1] = w[(((n - 1) - i) * n) + j + 1]
    \* separable up to rounding: weights multiply
    /\ \A i \in 0..(n - 1) : \A j \in 0..(n - 1) : Abs(w[(i * n) + j + 1] - ((w[(i * n) + m + 1] * (w[(m * n) + j + 1] \div 2)) \div 16384)) <= 48
    \* counting by multiplicities equals going through the window
    /\ LET im == Gray1(2, 3, <<5, 1, 9, 4, 7, 2>>) r == m IN \A x \in 0..1 : \A y \in 0..2 :
         WinSum(im, LAMBDA u, v : At(im, u, v, 0) * Mult(x, r, 2, u) * Mult(y, r, 3, v)) =
         Sum2(LAMBDA j, i : AtC(im, (x - r) + i, (y - r) + j, 0), n, n)
L20i == \E v \in {0, 1, 77, 255} : \E sn \in 1..12 : c = <<v, sn>>
L20 == LET im == F1(Gray1(3, 2, [t \in 1..6 |-> c[1]])) sn == c[2] IN
    /\ \A x \in 0..2 : \A y \in 0..1 : SquareSum(im, KLaplace, 3, x, y, 0) = 0 /\ SquareSum(im, KSharpen, 3, x, y, 0) = c[1]
                                       /\ SquareSum(im, KUnsharp, 5, x, y, 0) = 256 * c[1]
                                       /\ SquareSum(im, Outer(<<1, 2, 1>>, <<-1, 0, 1>>), 3, x, y, 0) = 0
    /\ \A d2 \in 0..40 : (8 * d2 < sn * sn => LogG(d2, sn) >= 0) /\ (8 * d2 > sn * sn => LogG(d2, sn) <= 0) /\ (8 * d2 = sn * sn => LogG(d2, sn) = 0)
L21i == \E v \in LatV : \E t \in LatV : \E m \in {0, 90, 255} : c = <<v, t, m>>
L21 == LET v == c[1] t == c[2] m == c[3] T(s) == ThreshV(v, t, m, s) IN
    /\ T("Binary") + T("BinaryInv") = m /\ T("Binary") \in {0, m}
    /\ T("ToZero") + T("ToZeroInv") = v
    /\ T("Trunc") = Min2(v, t)
    /\ \A s \in {"Trunc", "ToZero"} : ThreshV(T(s), t, m, s) = T(s)

------------------------------------------------------------------------------
L22i == \E z \in {<<1, 1>>, <<2, 2>>, <<3, 1>>, <<3, 2>>} : \E i \in 0..((3 ^ (z[1] * z[2])) - 1) : \E r \in 0..2 : Keep(i + r, IF Prop = "C23" THEN 23 ELSE 4) /\
           c = [im |-> Gray1(z[1], z[2], Seqn(i, z[1] * z[2], <<0, 4, 9>>)), r |-> r]
L22 == LET im == c.im r == c.r n == ((2 * r) + 1) * ((2 * r) + 1) refl == F1(Reflect(im, "Vertical")) IN
    \A x \in 0..(im.w - 1) : \A y \in 0..(im.h - 1) :
        LET s == TLCEval(SortSeq(WinSeq(im, r, x, y, 0), <)) m == s[(n + 1) \div 2] IN
        /\ \A v \in 0..10 : IsMedian(im, r, x, y, 0, v) = (v = m)          \* exactly the middle of the sorted window
        /\ IsMedian(refl, r, (im.w - 1) - x, y, 0, m)
        /\ (r = 0 => m = At(im, x, y, 0))
        /\ WinLess(im, r, x, y, 0, m) = Cardinality({t \in 1..n : s[t] < m})
L23 == LET im == c.im r == c.r n == ((2 * r) + 1) * ((2 * r) + 1) IN
    \A x \in 0..(im.w - 1) : \A y \in 0..(im.h - 1) :
        LET s == TLCEval(SortSeq(WinSeq(im, r, x, y, 0), <)) IN
        /\ \A t \in {0, 1, (n \div 2)} : t <= n \div 2 => TrimmedByCount(im, r, t, x, y, 0) = SumRange(LAMBDA k : s[k], t + 1, n - t)
        /\ IsMedian(im, r, x, y, 0, TrimmedMean(im, r, n - 1, x, y, 0))
        /\ TrimmedMean(im, r, 0, x, y, 0) = RDiv(SumRange(LAMBDA k : s[k], 1, n), n)
        /\ \A al \in {0, 2, n - 1} : al < n /\ al % 2 = 0 => LET v == TrimmedMean(im, r, al, x, y, 0) IN s[1] <= v /\ v <= s[n]
L24i == \E w \in 1..3 : \E h \in 1..3 : \E sym \in {"h", "v", "t"} : c = <<w, h, sym>>
L24 == LET w == c[1] h == c[2] s == TLCEval([t \in 1..(w * h) |-> t]) m == TLCEval(Mirror(w, h, s, c[3]))
           o == IF c[3] = "t" THEN Gray1(h, w, m) ELSE Gray1(w, h, m) IN
    \A x \in 0..(o.w - 1) : \A y \in 0..(o.h - 1) : At(o, x, y, 0) = MirrorAt(Gray1(w, h, s), c[3], x, y, 0)

------------------------------------------------------------------------------
L25i == \E z \in DimsUpTo(3) : \E i \in 0..((2 ^ (z[1] * z[2])) - 1) : \E r \in 0..2 : (z[1] * z[2] < 9 \/ Keep(i + r, 4)) /\
           c = [im |-> Gray1(z[1], z[2], Seqn(i, z[1] * z[2], BW)), r |-> r]
Inv1(im) == F1([im EXCEPT !.d = [t \in 1..Len(@) |-> 255 - @[t]]])
(* the image on a black (or white) frame wide enough for the window *)
Framed(im, r, v) == F1(Build(im.w + (2 * r), im.h + (2 * r), 1, FALSE, 0, LAMBDA x, y, k : IF Inside(im, x - r, y - r) THEN At(im, x - r, y - r, 0) ELSE v))
SatOf(im) == F1(Build(im.w, im.h, im.c, im.a, im.q, LAMBDA x, y, k : RectSum(im, k, 0, 0, x, y)))
Corners(t, x0, y0, x1, y1) == ((SatAt(t, x1, y1, 0) - SatAt(t, x1, y0 - 1, 0)) - SatAt(t, x0 - 1, y1, 0)) + SatAt(t, x0 - 1, y0 - 1, 0)
L25 == LET im == c.im r == c.r er == F1(Erode(im, r)) di == F1(Dilate(im, r)) sat == SatOf(im) IN
    /\ Leq(er, im) /\ Leq(im, di)
    /\ (r = 0 => Eq(er, im) /\ Eq(di, im) /\ Eq(Majority(im, 0), im))
    /\ Leq(er, Majority(im, r)) /\ Leq(Majority(im, r), di)
    \* counting white pixels with a summed-area table and the clipped window
    /\ \A x \in 0..(im.w - 1) : \A y \in 0..(im.h - 1) :
          Counts(im, r)[(y * im.w) + x] = WhiteCount(im, r, x, y) /\ 255 * WhiteCount(im, r, x, y) = Corners(sat, Max2(x - r, 0), Max2(y - r, 0), Min2(x + r, im.w - 1), Min2(y + r, im.h - 1))
    \* duality: eroding the image is dilating what is not in it (on a frame, whose outside is not in the image)
    /\ LET d2 == F1(Dilate(Framed(Inv1(im), r, 255), r)) IN
       \A x \in 0..(im.w - 1) : \A y \in 0..(im.h - 1) : At(er, x, y, 0) = 255 - At(d2, x + r, y + r, 0)
    /\ \A i \in 1..Len(im.d) : Gradient(im, r).d[i] = (IF di.d[i] = 255 /\ er.d[i] = 0 THEN 255 ELSE 0)
    \* erosions compose
    /\ (r = 2 => Eq(er, Erode(F1(Erode(im, 1)), 1)) /\ Eq(di, Dilate(F1(Dilate(im, 1)), 1)))
L26 == LET im == c.im r == c.r op == F1(Opening(im, r)) cl == F1(Closing(im, r)) IN
    /\ Leq(op, im) /\ Eq(Opening(op, r), op)
    /\ \A x \in r..((im.w - 1) - r) : \A y \in r..((im.h - 1) - r) : At(im, x, y, 0) <= At(cl, x, y, 0)
    /\ (r = 0 => Eq(op, im) /\ Eq(cl, im))
    /\ \A k \in 1..Len(im.d) : im.d[k] = 0 =>
          LET more == [im EXCEPT !.d[k] = 255] IN Leq(op, Opening(more, r)) /\ Leq(cl, Closing(more, r))
L27i == \E z \in DimsUpTo(4) : \E s \in 0..3 : c = Gray1(z[1], z[2], Noise(z[1] * z[2], s + Seed))
L27 == LET t == SatOf(c) IN
    /\ IsSat(t, c)
    /\ \A x0 \in 0..(c.w - 1) : \A x1 \in x0..(c.w - 1) : \A y0 \in 0..(c.h - 1) : \A y1 \in y0..(c.h - 1) :
          RectSum(c, 0, x0, y0, x1, y1) = Corners(t, x0, y0, x1, y1)
    /\ \A i \in 1..Len(t.d) : LET bad == [t EXCEPT !.d[i] = @ + 1] IN ~IsSat(bad, c)          \* and only that table

------------------------------------------------------------------------------
L28i == \E z \in DimsUpTo(4) : \E x \in 0..3 : \E y \in 0..3 : c = <<Im(z[1], z[2], 2, TRUE, Tag(z[1] * z[2] * 2)), x, y>>
L28 == LET im == c[1] x == c[2] y == c[3] IN
    /\ \A ax \in {"Horizontal", "Vertical"} : Eq(Reflect(F1(Reflect(im, ax)), ax), im)
    /\ Eq(Reflect(F1(Reflect(im, "Horizontal")), "Vertical"), QuarterTurn(im, 2))
    /\ Eq(Translate(F1(Translate(im, x, 0)), 0, y), Translate(im, x, y))
    /\ Eq(Translate(im, 0, 0), im)
    /\ Eq(Crop(im, 0, 0, im.w, im.h), im)
    /\ (x < im.w /\ y < im.h => LET w == im.w - x h == im.h - y fr == F1(Crop(im, x, y, w, h)) IN
          /\ (w > 1 => Eq(Crop(fr, 1, 0, w - 1, h), Crop(im, x + 1, y, w - 1, h)))
          /\ Eq(Overlay(im, fr, x, y), im)                              \* a piece put back where it came from
          /\ LET blank == F1([fr EXCEPT !.d = [i \in 1..Len(@) |-> 0]]) IN
             /\ Eq(Crop(F1(Overlay(im, blank, x, y)), x, y, w, h), blank)
             /\ Eq(Overlay(F1(Overlay(im, blank, x, y)), fr, x, y), im))
    /\ \A w \in 0..5 : \A h \in 0..5 : CropOk(im, x, y, w, h) = (\A i \in 0..(w - 1) : \A j \in 0..(h - 1) : Inside(im, x + i, y + j)) \/ w = 0 \/ h = 0
L29i == \E z \in DimsUpTo(3) : \E u \in DimsUpTo(3) : \E x \in 0..3 : \E y \in 0..2 : c = <<Gray1(z[1], z[2], Tag(z[1] * z[2])), Gray1(u[1], u[2], Noise(u[1] * u[2], Seed)), x, y>>
L29 == LET b == c[1] f == c[2] x == c[3] y == c[4] up(im) == [im EXCEPT !.q = 3, !.d = [i \in 1..Len(@) |-> 8 * @[i]]] IN
    /\ Eq(Superimpose(b, f, x, y, 0, 3), up(Overlay(b, f, x, y)))
    /\ Eq(Superimpose(b, f, x, y, 8, 3), up(b))
    /\ \A n \in 0..8 : \A i \in 1..Len(b.d) : Superimpose(b, f, x, y, n, 3).d[i] + Superimpose(b, f, x, y, 8 - n, 3).d[i] = 8 * (b.d[i] + Overlay(b, f, x, y).d[i])
    /\ (<<b.w, b.h>> = <<f.w, f.h>> => \A i \in 1..Len(b.d) : Residual(b, f).d[i] + f.d[i] = b.d[i] /\ Residual(b, b).d[i] = 0)
L30i == \E n \in 1..12 : \E fn \in 1..24 : \E fd \in {1, 2, 3, 4, 5, 8} : c = <<n, fn, fd>>
L30 == LET n == c[1] fn == c[2] fd == c[3] m == ScaledDim(n, fn, fd) src(x) == NearestSrc(x, fn, fd, n) IN
    /\ Abs((2 * fd * m) - (2 * n * fn)) <= fd
    /\ \A x \in 0..(m - 1) : /\ src(x) \in 0..(n - 1)
                             /\ (x + 1 < m => src(x) <= src(x + 1))
                             \* it covers the right edge of the result pixel, or is the last one
                             /\ (src(x) = n - 1 \/ (src(x) * fn < (x + 1) * fd /\ (x + 1) * fd <= (src(x) + 1) * fn))
    /\ (fn = fd => m = n /\ \A x \in 0..(m - 1) : src(x) = x)
    /\ ScaledDim(n, 0, fd) = 0
    \* weights: bilinear and cubic ones add up to one
    /\ \A ax \in 0..(fn - 1) : (fn <= 12) =>
          SumRange(LAMBDA t : CubicNum(((t - 1) * fn) - ax, fn), 0, 3) = 6 * fn * fn * fn
    /\ LET im == F1(Gray1(n, 1, [i \in 1..n |-> 7])) IN
       n < 5 => \A x \in 0..(m - 1) : BilinearNum(im, fn, fd, 1, 1, x, 0, 0) = 7 * fn
    /\ LET im == F1(Gray1(n, 2, Noise(2 * n, 3))) IN
       (n < 4 /\ fn = fd) => \A x \in 0..(n - 1) : \A y \in 0..1 : BilinearNum(im, 1, 1, 1, 1, x, y, 0) = At(im, x, y, 0)
    \* Lanczos: one at zero, zero at the other whole numbers, even
    /\ \A a \in 1..5 : LanczosQ(0, a) = 16384 /\ \A k \in 1..5 : Abs(LanczosQ(12 * k, a)) <= 1
L31i == \E z \in DimsUpTo(4) : \E d \in 0..1439 : Keep(d + z[1], 20) /\ c = <<z[1], z[2], d>>
L31 == LET im == F1(TagPix(c[1], c[2], 1, FALSE)) d == c[3] IN
    /\ \A a \in 0..3 : \A b \in 0..3 : d > 3 \/ Eq(QuarterTurn(F1(QuarterTurn(im, a)), b), QuarterTurn(im, (a + b) % 4))
    /\ Abs((Cos(d) * Cos(d)) + (Sin(d) * Sin(d)) - (16384 * 16384)) <= 40000
    \* the source position of the rotation rule is the quarter turn at multiples of 90
    /\ (d % 360 = 0 => LET o == F1(QuarterTurn(im, Turns(d))) IN
          /\ <<o.w * 16384, o.h * 16384>> = <<RotW(im, d), RotH(im, d)>>
          /\ \A i \in 0..(o.w - 1) : \A j \in 0..(o.h - 1) :
                At(o, i, j, 0) = (4 * (((RotSrcY(im, o, d, i, j) \div 16384) * im.w) + (RotSrcX(im, o, d, i, j) \div 16384))) + 1)
    \* the bounding box holds every source pixel's centre
    /\ RotW(im, d) >= 16384 - 4 /\ RotH(im, d) >= 16384 - 4
    /\ RotW(im, d) <= 16384 * (im.w + im.h) /\ RotW(im, (d + 360) % 1440) = RotH(im, d)
L32i == \E z \in DimsUpTo(4) : \E s \in -9..9 : c = <<z[1], z[2], s>>
L32 == LET im == F1(Gray1(c[1], c[2], Tag(c[1] * c[2]))) s == c[3] o == F1(ShearX(im, s, 2)) p == F1(ShearY(im, s, 2)) IN
    /\ (s = 0 => Eq(o, im) /\ Eq(p, im))
    /\ \A v \in Range(im.d) : Cardinality({i \in 1..Len(o.d) : o.d[i] = v}) = 1 /\ Cardinality({i \in 1..Len(p.d) : p.d[i] = v}) = 1
    /\ \A y \in 0..(im.h - 1) : ShearShift(s, 2, y, im.h) \in 0..ShearGrow(s, 2, im.h)
    /\ \A y \in 0..(im.h - 2) : Abs((ShearShift(s, 2, y, im.h) - ShearShift(s, 2, y + 1, im.h))) <= CeilDiv(Abs(s), 4)
    /\ (s >= 0 => Eq(Reflect(F1(Reflect(o, "Horizontal")), "Horizontal"), o))
    \* the rule for both axes agrees with the one-axis rules
    /\ \A x \in 0..(im.w - 1) : \A y \in 0..(im.h - 1) :
          LET l == ShearLand(im, s, 2, 0, 2, x, y) m == ShearLand(im, 0, 2, s, 2, x, y) IN
          (s >= 0 => At(o, l[1], l[2], 0) = At(im, x, y, 0) /\ At(p, m[1], m[2], 0) = At(im, x, y, 0))
L33i == \E v \in 0..255 : \E s \in {1, 2, 3, 100, 255, 256, 1000} : c = <<v, s>>
L33 == LET v == c[1] s == c[2] IN
    /\ RDiv(255 * v * s, 255 * s) = v
    /\ \A f \in -1..1 : Clamp(RDiv((4 * v) + f, 4), 0, 255) = v                  \* rounding to nearest
    /\ RDiv((4 * v) + 2, 4) = v + 1

L36i == \E x \in {-9, -1, 0, 2, 7} : \E y \in {-9, -1, 0, 2, 7} : \E z \in {-9, 0, 2, 7} : c = <<x, y, z>>
L36 == LET s == c IN
    /\ SeqMax(s) = Max3(s[1], s[2], s[3]) /\ SeqMin(s) = Min3(s[1], s[2], s[3])
    /\ SeqMax(s) = -SeqMin([i \in 1..3 |-> -s[i]])
    /\ MatVec(<<1, 0, 0, 0, 1, 0, 0, 0, 1>>, s) = s
    /\ MatVec(<<2, 0, 0, 0, 0, 3, 1, 0, 0>>, s) = <<2 * s[1], 3 * s[3], s[1]>>
    /\ \A t \in -8..8 : CubicNum(t, 4) = CubicNum(-t, 4) /\ CubicNum(t, 4) >= 0
    /\ \A t \in 0..36 : LanczosQ(t, 3) = LanczosQ(-t, 3)
    /\ \A w \in 1..4 : \A k \in 0..12 : ((k \div w) * w) + (k % w) = k

(* C05: the shapes promised are the shapes of the specified results. *)
L05i == \E z \in DimsUpTo(3) : \E l \in AnyLayouts : \E s \in 0..2 : \E e \in OnAny(ImOf(z, l, s), s) : c = e
SpecOf(e) == LET im == e.in p == e.p IN
    CASE e.op = "brightness" -> Brightness(im, p.b) [] e.op = "contrast" -> Contrast(im, p.g, p.gq)
      [] e.op = "translate" -> Translate(im, p.x, p.y) [] e.op = "reflect" -> Reflect(im, p.axis)
      [] e.op = "crop" -> Crop(im, p.x, p.y, p.w, p.h) [] e.op = "overlay" -> Overlay(im, e.b, p.x, p.y)
      [] e.op = "superimpose" -> Superimpose(im, e.b, p.x, p.y, p.wt, p.wtq)
      [] e.op = "shear" -> (IF p.sy = 0 THEN ShearX(im, p.sx, p.sxq) ELSE ShearY(im, p.sy, p.syq))
      [] e.op = "filter1d" -> Filter1D(im, p.ker, 0, p.v) [] e.op = "unsep" -> Filter2D(im, p.ker, 0)
      [] e.op = "sep" -> FilterSep(im, p.vk, p.hk, 0) [] e.op = "sharpen" -> Filter2D(im, KSharpen, 0) [] e.op = "unsharp" -> Filter2D(im, KUnsharp, 8)
      [] e.op = "scale" -> ScaleNearest(im, p.xf, P2(p.xfq), p.yf, P2(p.yfq))
      [] e.op = "rotate" -> QuarterTurn(im, Turns(4 * (p.deg - (p.deg % 180))))
      [] OTHER -> im
L05 == c.op = "rotate" \/ LET o == SpecOf(c) IN HasShape(o, Promised(c))

------------------------------------------------------------------------------
Has == {"C02", "C05", "C07", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
        "C28", "C29", "C30", "C31", "C32", "C33", "C36"}
ASSUME Prop \in Has
LInit == CASE Prop = "C02" -> L02i [] Prop = "C05" -> L05i [] Prop = "C07" -> L07i [] Prop \in {"C10", "C11"} -> L10i [] Prop = "C12" -> L12i
           [] Prop = "C13" -> L13i [] Prop = "C14" -> L14i [] Prop = "C15" -> L15i [] Prop = "C16" -> L16i [] Prop = "C17" -> L17i [] Prop = "C18" -> L18i
           [] Prop = "C19" -> L19i [] Prop = "C20" -> L20i [] Prop = "C21" -> L21i [] Prop \in {"C22", "C23"} -> L22i [] Prop = "C24" -> L24i
           [] Prop \in {"C25", "C26"} -> L25i [] Prop = "C27" -> L27i [] Prop = "C28" -> L28i [] Prop = "C29" -> L29i [] Prop = "C30" -> L30i
           [] Prop = "C31" -> L31i [] Prop = "C32" -> L32i [] Prop = "C33" -> L33i [] Prop = "C36" -> L36i
LInv == CASE Prop = "C02" -> L02 [] Prop = "C05" -> L05 [] Prop = "C07" -> L07 [] Prop = "C10" -> L10 [] Prop = "C11" -> L11 [] Prop = "C12" -> L12
          [] Prop = "C13" -> L13 [] Prop = "C14" -> L14 [] Prop = "C15" -> L15 [] Prop = "C16" -> L16 [] Prop = "C17" -> L17 [] Prop = "C18" -> L18
          [] Prop = "C19" -> L19 [] Prop = "C20" -> L20 [] Prop = "C21" -> L21 [] Prop = "C22" -> L22 [] Prop = "C23" -> L23 [] Prop = "C24" -> L24
          [] Prop = "C25" -> L25 [] Prop = "C26" -> L26 [] Prop = "C27" -> L27 [] Prop = "C28" -> L28 [] Prop = "C29" -> L29 [] Prop = "C30" -> L30
          [] Prop = "C31" -> L31 [] Prop = "C32" -> L32 [] Prop = "C33" -> L33 [] Prop = "C36" -> L36
LSpec == LInit /\ [][Next]_c
=============================================================================
