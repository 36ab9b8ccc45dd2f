----------------------------- MODULE PropColor -----------------------------
(***************************************************************************)
(* Verdicts on recorded calls of the colorimetric operations:              *)
(* C13 (conversions), C15 (CIELAB brightness and contrast), C16 (histogram *)
(* equalisation).  Results are recorded at scale 2^15 (light, XYZ) and     *)
(* 2^12 (CIELAB).                                                          *)
(***************************************************************************)
EXTENDS PropPoint

------------------------------------------------------------------------------
(* C13.  0.1 percent of full scale: 33 of 2^15; for CIELAB 0.1 of          *)
(* lightness 100 is 410 of 2^12, 0.255 of the chroma range is 1044, to     *)
(* which the error of the fixed-point oracle itself is added.              *)
TolLin == 34
TolL == 560
TolAB(p) == 2600

LabClose(o, want) ==
    /\ Abs(o[1] - want[1]) <= TolL
    /\ Abs(o[2] - want[2]) <= TolAB(o) /\ Abs(o[3] - want[3]) <= TolAB(o)
Px3(im, t) == [k \in 1..3 |-> im.d[(t - 1) * im.c + k]]
EachPixel(e, P(_, _)) ==
    /\ e.r = "ok"
    /\ LikeShape(e.o, e.in) /\ e.o.n = 0
    /\ \A t \in 1..Size(e.in) : P(Px3(e.in, t), Px3(e.o, t))
MonotoneGray(e, strict) ==      \* pixels of the input are gray levels in increasing order
    \A t \in 1..(Size(e.in) - 1) :
        LET a == Px3(e.o, t) b == Px3(e.o, t + 1) IN
        IF strict THEN a[1] < b[1] ELSE a[1] <= b[1]

C13(e) ==
    CASE e.op \in {"rt_lin", "rt_xyz", "rt_lab"} -> e.r = "ok" /\ Exactly(e.o, e.in)
      [] e.op = "lin" ->
            /\ e.r = "ok" /\ LikeShape(e.o, e.in) /\ e.o.n = 0
            /\ \A i \in 1..Len(e.in.d) :
                  IF IsAlphaIdx(e.in, i) THEN e.o.d[i] = Rescale(e.in.d[i], 0, 15)
                  ELSE /\ Abs(e.o.d[i] - SrgbLin[e.in.d[i] + 1]) <= TolLin
                       /\ (e.in.d[i] = 0 => e.o.d[i] = 0) /\ (e.in.d[i] = 255 => e.o.d[i] = 32768)
            /\ (e.p.ramp => \A i \in 1..(Len(e.o.d) - 1) : e.o.d[i] < e.o.d[i + 1])
      [] e.op = "unlin" ->           \* linear light at scale 2^15
            /\ e.r = "ok" /\ LikeShape(e.o, e.in) /\ e.o.n = 0
            /\ \A i \in 1..Len(e.in.d) :
                  IF IsAlphaIdx(e.in, i) THEN e.o.d[i] = RDiv(e.in.d[i], P2(e.in.q))
                  ELSE Renders(e.o.d[i], e.in.d[i], 2 + (e.in.d[i] \div 8000), 0)
            /\ (e.p.ramp => \A i \in 1..(Len(e.o.d) - 1) : e.o.d[i] <= e.o.d[i + 1])
      [] e.op = "lin2xyz" ->
            EachPixel(e, LAMBDA p, o : \A k \in 1..3 : Abs(o[k] - XyzRow(k - 1, p[1], p[2], p[3])) <= TolLin)
      [] e.op = "xyz2lin" ->
            EachPixel(e, LAMBDA p, o : \A k \in 1..3 : Abs(o[k] - RgbRow(k - 1, p[1], p[2], p[3])) <= TolLin)
      [] e.op = "srgb2xyz" ->
            EachPixel(e, LAMBDA p, o :
                LET want == XyzOf(LinOf(p)) IN \A k \in 1..3 : Abs(o[k] - want[k]) <= TolLin)
      [] e.op = "xyz2srgb" ->
            EachPixel(e, LAMBDA p, o :
                \A k \in 1..3 : Renders(o[k], RgbRow(k - 1, p[1], p[2], p[3]), 40, 0))
      [] e.op = "xyz2lab" ->
            EachPixel(e, LAMBDA p, o : LabClose(o, LabOfXyz(p, e.p.white)))
      [] e.op = "srgb2lab" ->
            EachPixel(e, LAMBDA p, o :
                /\ LabClose(o, LabOf(p, e.p.white))
                /\ (p = <<0, 0, 0>> => \A k \in 1..3 : Abs(o[k]) <= 4)
                /\ (p = <<255, 255, 255>> => Abs(o[1] - 409600) <= 40)
                /\ (IsGrayPix(p) => Abs(o[1] - LStarTab[p[1] + 1]) <= 410))
            /\ (e.p.ramp => MonotoneGray(e, TRUE))
      [] e.op = "lab2xyz" ->         \* CIELAB at scale 2^12
            EachPixel(e, LAMBDA p, o :
                LET fy == ((p[1] + 65536) * 8) \div 116
                    wp == White(e.p.white)
                IN /\ Abs(o[1] - ((LabF(fy + ((p[2] * 8) \div 500)) * wp[1]) \div 16384)) <= TolLin
                   /\ Abs(o[2] - ((LabF(fy) * wp[2]) \div 16384)) <= TolLin
                   /\ Abs(o[3] - ((LabF(fy - ((p[3] * 8) \div 200)) * wp[3]) \div 16384)) <= TolLin)
      [] e.op = "lab2srgb" ->
            EachPixel(e, LAMBDA p, o : RendersLab(o, p[1], p[2], p[3], e.p.white, 60, 0))
      [] e.op \in {"rt_linxyz", "rt_xyzlab"} ->
            EachPixel(e, LAMBDA p, o : \A k \in 1..3 : Abs(o[k] - Rescale(p[k], e.in.q, e.o.q)) <= TolLin)

------------------------------------------------------------------------------
(* C15: only lightness moves.  bias in 0..255 steps, gain = g / 2^gq.      *)
BiasL(b) == ((b * 4096) * 20) \div 51                   \* b / 255 * 100 at scale 2^12
GainL(L, g, gq) == (L * g) \div P2(gq)                  \* |L * g| < 2^31 for gq <= 8
MaxOf(p) == Max3(p[1], p[2], p[3])
C15pix(p, o, e) ==
    LET q == LabOf(p, "D50")
        L == IF e.op = "brightness_lab" THEN q[1] + BiasL(e.p.b) ELSE GainL(q[1], e.p.g, e.p.gq)
    IN RendersLab(o, L, q[2], q[3], "D50", 160, 1)
(* q is at least as light as p, up to one level of each channel.  (Single channels may fall while *)
(* lightness rises: a gray pixel has some chroma under D50, which stays as it was.)               *)
Lum(p) == LET l == LinOf(p) IN XyzRow(1, l[1], l[2], l[3])
NotDarker(p, q) == Lum(p) <= Lum([k \in 1..3 |-> Min2(255, q[k] + 1)])
C15id(e) == IF e.op = "brightness_lab" THEN e.p.b = 0 ELSE e.p.g = P2(e.p.gq)
C15(e) ==
    /\ EachPixel(e, LAMBDA p, o : C15pix(p, o, e))
    /\ SameAlpha(e.in, e.o)
    /\ (C15id(e) => Exactly(e.o, e.in))
    /\ (e.p.ramp => \A t \in 1..(Size(e.in) - 1) : NotDarker(Px3(e.o, t), Px3(e.o, t + 1)))
    \* paired calls: the second has the larger bias or gain; gray pixels do not get darker
    /\ (e.p.pair => /\ e.r2 = "ok"
                    /\ \A t \in 1..Size(e.in) : IsGrayPix(Px3(e.in, t)) => NotDarker(Px3(e.o, t), Px3(e.o2, t)))

------------------------------------------------------------------------------
(* C16: cumulative histogram and equalisation *)
KeyOf(v, q, prec, pq) == RDiv(v * prec, P2(q + pq))
HistOk(e) ==
    LET im == e.in n == Size(im)
        key == TLCEval([t \in 1..n |-> KeyOf(im.d[(t - 1) * im.c + 1], im.q, e.p.prec, e.p.precq)])
        keys == Range(key)
        \* the map handed over may hold entries of an earlier image (p.pre); only this image's keys are judged
        pre == IF "pre" \in DOMAIN e.p THEN Range(e.p.pre) ELSE {}
        sel == TLCEval(SelectSeq([i \in 1..Len(e.o.k) |-> i], LAMBDA i : e.o.k[i] \in keys))
        ks == [i \in 1..Len(sel) |-> e.o.k[sel[i]]] v == [i \in 1..Len(sel) |-> e.o.v.d[sel[i]]] q == e.o.v.q
        upto(z) == LET F(t) == key[t] <= z IN CountRange(F, 1, n)
    IN /\ Range(ks) = keys /\ Len(e.o.v.d) = Len(e.o.k) /\ Range(e.o.k) \subseteq (keys \cup pre)
       /\ \A i \in 1..(Len(ks) - 1) : ks[i] < ks[i + 1] /\ v[i] < v[i + 1]
       /\ \A i \in 1..Len(ks) : Abs((v[i] * n) - (upto(ks[i]) * P2(q))) <= n
       /\ (n > 0 => v[Len(v)] = P2(q))

(* Equalisation.  The keys of the input's pixels must not be ambiguous     *)
(* within the accuracy of the oracle (the driver chooses such images and   *)
(* the specification only judges those).                                   *)
KeyMargin(L, prec, pq, tol) == KeyOf(L - tol, 12, prec, pq) = KeyOf(L + tol, 12, prec, pq)
HistEqOk(e) ==
    LET im == e.in n == Size(im)
        lab == TLCEval([t \in 1..n |-> LabOf(Px3(im, t), e.p.white)])
        light == [t \in 1..n |-> IF IsGrayPix(Px3(im, t)) THEN LStarTab[im.d[(t-1) * im.c + 1] + 1] ELSE lab[t][1]]
        key == TLCEval([t \in 1..n |-> KeyOf(light[t], 12, e.p.prec, e.p.precq)])
        Tol(t) == IF IsGrayPix(Px3(im, t)) THEN 30 ELSE 200
        lo == TLCEval([t \in 1..n |-> KeyOf(light[t] - Tol(t), 12, e.p.prec, e.p.precq)])
        hi == TLCEval([t \in 1..n |-> KeyOf(light[t] + Tol(t), 12, e.p.prec, e.p.precq)])
        \* no key can be another one, or (fine keys) each pair of pixels is the same colour or certainly apart
        sure == \/ \A t \in 1..n : KeyMargin(light[t], e.p.prec, e.p.precq, Tol(t))
                \/ n <= 20 /\ \A s, t \in 1..n : Px3(im, s) = Px3(im, t) \/ hi[s] < lo[t] \/ hi[t] < lo[s]
        upto(z) == LET F(t) == key[t] <= z IN CountRange(F, 1, n)
        target(t) == ((e.p.al * ((409600 * upto(key[t])) \div n)) + ((P2(e.p.alq) - e.p.al) * light[t])) \div P2(e.p.alq)
    IN /\ e.r = "ok" /\ LikeShape(e.o, im) /\ e.o.n = 0
       /\ SameAlpha(im, e.o)
       /\ (e.p.al = 0 => Exactly(e.o, im))
       /\ (sure => \A t \in 1..n :
              RendersLab(Px3(e.o, t), target(t), lab[t][2], lab[t][3], e.p.white, 160, 1))
       \* order of lightness is preserved (gray pixels) and, at full strength, the lightest gray becomes white
       /\ \A s \in 1..n : \A t \in 1..n :
             (IsGrayPix(Px3(im, s)) /\ IsGrayPix(Px3(im, t)) /\ im.d[(s-1)*im.c+1] <= im.d[(t-1)*im.c+1])
               \* (the chroma a gray pixel has under D50 moves single channels a little)
               => \A k \in 1..3 : Px3(e.o, s)[k] <= Px3(e.o, t)[k] + (IF e.p.white = "D65" THEN 1 ELSE 2)
       /\ ((e.p.al = P2(e.p.alq) /\ e.p.white = "D65") => \A t \in 1..n :
             (IsGrayPix(Px3(im, t)) /\ (\A s \in 1..n : light[s] <= light[t])) => \A k \in 1..3 : Px3(e.o, t)[k] >= 254)
C16(e) == IF e.op = "hist" THEN e.r = "ok" /\ HistOk(e) ELSE HistEqOk(e)
=============================================================================
