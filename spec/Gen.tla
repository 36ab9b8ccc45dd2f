-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Small-scope scenarios, enumerated by TLC: every initial state is one    *)
(* call of the specification.  Each is printed as a CASE line and executed *)
(* on the real code by the runner.                                         *)
(* Environment: PROP, TIER, SEED.  A set too large for the quick tier is   *)
(* thinned to one residue class chosen by SEED.                            *)
(***************************************************************************)
EXTENDS PropMisc, Json, IOUtils

Prop == IOEnv.PROP
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
K(a, b) == IF Deep THEN b ELSE a                    \* a in the quick tier, b in the thorough one
Keep(i, m) == Deep \/ ((i + (Seed * 7)) % m) = 0       \* one in m, all in the thorough tier

VARIABLE c

Im(w, h, ch, a, d) == [w |-> w, h |-> h, c |-> ch, a |-> a, q |-> 0, d |-> TLCEval(d)]
ImQ(w, h, ch, a, q, d) == [w |-> w, h |-> h, c |-> ch, a |-> a, q |-> q, d |-> TLCEval(d)]
Call(op, p, im) == [op |-> op, p |-> p, in |-> im]
CallQ(op, p, im, oq) == [op |-> op, p |-> p, in |-> im, oq |-> oq]
CallT(op, p, im, ty) == [op |-> op, p |-> p, in |-> im, ty |-> ty]
CallB(op, p, im, b, oq) == [op |-> op, p |-> p, in |-> im, b |-> b, oq |-> oq]
PairOf(a, b) == [pair |-> <<a, b>>]

(* All sequences of length n over the values of the sequence s, by number. *)
Digit(i, base, k) == (i \div (base ^ (k - 1))) % base
Seqn(i, n, s) == [k \in 1..n |-> s[Digit(i, Len(s), k) + 1]]
Tag(n) == [i \in 1..n |-> (4 * i) + 1]
Noise(n, s) == [i \in 1..n |-> (((i + s) * (i + s) * 37) + ((i + s) * 91) + (s * 53)) % 256]
Unit(n, i) == [t \in 1..n |-> IF t = i THEN 1 ELSE 0]
Layouts == {<<1, FALSE>>, <<2, TRUE>>, <<3, FALSE>>, <<4, TRUE>>}
AnyLayouts == Layouts \cup {<<2, FALSE>>, <<4, FALSE>>, <<5, TRUE>>, <<1, TRUE>>}
Dims == 1..3
Methods == <<"Binary", "BinaryInv", "Trunc", "ToZero", "ToZeroInv">>

------------------------------------------------------------------------------
G02 == \E w \in 1..3 : \E h \in 1..3 : \E x \in 0..(w-1) : \E y \in 0..(h-1) :
         \/ \E u \in 0..(w - x) : \E v \in 0..(h - y) :
               c = CallT("subimage", [x |-> x, y |-> y, w |-> u, h |-> v], Im(w, h, 2, TRUE, Tag(w * h * 2)), "u8")
         \/ \E n \in 0..K(4, 9) :
               \/ \E v \in BOOLEAN : c = CallT("nbr1", [x |-> x, y |-> y, n |-> n, v |-> v], Im(w, h, 1, FALSE, Tag(w * h)), "u16")
               \/ c = CallT("nbr2", [x |-> x, y |-> y, n |-> n], Im(w, h, 3, FALSE, Tag(w * h * 3)), "f32")

MapHows == <<"map_pixels", "map_pixels_if_alpha", "map_channels", "map_channels_if_alpha", "apply_pixels",
             "apply_pixels_if_alpha", "apply_channels", "apply_channels_if_alpha", "edit_channel">>
G04 == \E t \in 1..9 : \E l \in AnyLayouts : \E w \in 0..2 : \E h \in 0..2 : \E x \in 0..2 : \E k \in 0..(l[1] - 1) :
         LET how == MapHows[t] IN
         /\ (how \notin {"map_pixels", "map_pixels_if_alpha"} \/ w * h = 0) => x = 0
         /\ how # "edit_channel" => k = 0
         /\ PixelHow(how) => (IF AlphaHow(how) /\ l[2] THEN l[1] - 1 ELSE l[1]) + x >= 1
         /\ (PixelHow(how) /\ AlphaHow(how) /\ l[2]) => l[1] > 1
         /\ c = CallT("map", [how |-> how, extra |-> x, k |-> k], Im(w, h, l[1], l[2], Tag(w * h * l[1])), "u16")

(* every bias on every sample value *)
Ramp(n, ch, a) == Im(n, 1, ch, a, [i \in 1..(n * ch) |-> ((i - 1) \div ch) % 256])
G07 == \/ \E b \in -255..255 : Keep(b + 255, 4) /\ c = Call("brightness", [b |-> b], Ramp(256, 1, FALSE))
       \/ \E n \in 0..K(35, 130) : \E l \in Layouts : \E b \in {-3, 200} :
            c = Call("brightness", [b |-> b], Im(n, 1, l[1], l[2], Noise(n * l[1], n)))
G08 == \/ \E b \in -255..255 : Keep(b + 255, 4) /\ c = Call("adds", [val |-> b, guard |-> 1], Ramp(256, 1, FALSE))
       \/ \E n \in 0..K(35, 130) : \E l \in AnyLayouts :
            \/ \E b \in {-77, 1} : c = Call("adds", [val |-> b, guard |-> 2], Im(n, 1, l[1], l[2], Noise(n * l[1], n)))
            \/ \E t \in 0..5 : Keep(n + t + l[1], 3) /\ c = Call("addsn", [val |-> IF (n + t) % 2 = 0 THEN 90 ELSE -90, n |-> t, guard |-> 1], Im(n, 1, l[1], l[2], Noise(n * l[1], n)))
       \/ \E n \in 0..K(70, 200) : \E g \in 1..2 :
            \/ c = Call("avg3", [guard |-> g], Im(n, 1, 3, FALSE, Noise(n * 3, n)))
            \/ c = Call("avg4", [guard |-> g], Im(n, 1, 4, TRUE, Noise(n * 4, n)))
(* every sum of three samples *)
SumRgb(s) == <<Min2(s, 255), Clamp(s - 255, 0, 255), Clamp(s - 510, 0, 255)>>
G10 == \/ \E a \in BOOLEAN : \E rot \in 0..2 : \E n \in {766, 32, 33, 64, 100} :
            c = Call("gray", [z |-> 0], LET ch == IF a THEN 4 ELSE 3 IN
                  Im(n, 1, ch, a, [i \in 1..(n * ch) |-> LET t == (i - 1) \div ch k == (i - 1) % ch IN
                        IF k = 3 THEN (t * 7) % 256 ELSE SumRgb(t)[((k + rot) % 3) + 1]]))
       \/ \E n \in 1..K(70, 200) : \E a \in BOOLEAN :
            LET ch == IF a THEN 4 ELSE 3 IN c = Call("gray", [z |-> 0], Im(n, 1, ch, a, Noise(n * ch, n)))
(* a lattice of colours: the i-th plane has red = i *)
Step == IF Deep THEN 15 ELSE 51
Lattice(r) == LET m == (255 \div Step) + 1 n == m * m IN
    Im(n, 1, 3, FALSE, [i \in 1..(3 * n) |-> LET t == (i - 1) \div 3 k == (i - 1) % 3 IN
        IF k = 0 THEN r ELSE IF k = 1 THEN Step * (t % m) ELSE Step * (t \div m)])
LatticeShift(r, s) == LET im == Lattice(r) IN [im EXCEPT !.d = TLCEval([i \in 1..Len(im.d) |-> Clamp(im.d[i] + s, 0, 255)])]
G11 == \E t \in 0..(255 \div Step) : \E s \in {0, -1, (Seed % 37) + 3} :
         \/ c = Call("hsv", [z |-> 0], LatticeShift(Step * t, s))
         \/ c = Call("unhsv", [z |-> 0], LatticeShift(Step * t, s))
         \/ c = Call("rt_hsv", [z |-> 0], LatticeShift(Step * t, s))
         \/ c = CallQ("hsvf", [z |-> 0], LatticeShift(Step * t, s), 16)
         \/ c = Call("rt_hsvf", [z |-> 0], LatticeShift(Step * t, s))
G12 == \E s \in -255..255 : Keep(s + 255, 3) /\
         c = Call("saturation", [s |-> s], Im(12, 1, 3, FALSE, <<255,0,0, 0,255,0, 0,0,255, 9,9,9, 0,0,0, 255,255,255,
                  200,100,50, 50,200,100, 100,50,200, 1,0,0, 254,255,253, (Seed * 31) % 256, (Seed * 57) % 256, (Seed * 91) % 256>>))
G13 == \E t \in 0..(255 \div Step) : \E s \in {0, (Seed % 47) + 1} :
         \/ \E o \in {"rt_lin", "rt_xyz"} : c = Call(o, [ramp |-> FALSE], LatticeShift(Step * t, s))
         \/ \E wh \in {"D50", "D65"} : \/ c = Call("rt_lab", [white |-> wh, ramp |-> FALSE], LatticeShift(Step * t, s))
                                       \/ c = CallQ("srgb2lab", [white |-> wh, ramp |-> FALSE], LatticeShift(Step * t, s), 12)
         \/ c = CallQ("srgb2xyz", [ramp |-> FALSE], LatticeShift(Step * t, s), 15)
G14 == \/ \E g \in 0..256 : Keep(g, 3) /\ c = Call("contrast", [g |-> g, gq |-> 8, mono |-> TRUE], Ramp(256, 1, FALSE))
       \/ \E e \in {0, 8, 16, 32, 48} : \E m \in 1..255 : Keep(m + e, 12) /\ e > 0 /\
            c = Call("gamma", [e |-> e, eq |-> 4, m |-> m, mono |-> TRUE], Ramp(256, 1, FALSE))
GrayRow(lo, n, st) == Im(n, 1, 3, FALSE, [i \in 1..(3 * n) |-> Min2(255, lo + (st * ((i - 1) \div 3)))])
G15 == \/ \E b \in -255..255 : Keep(b, 3) /\ c = Call("brightness_lab", [b |-> b, ramp |-> TRUE, pair |-> FALSE], GrayRow(0, 18, 15))
       \/ \E g \in 0..256 : Keep(g, 3) /\ c = Call("contrast_lab", [g |-> g, gq |-> 8, ramp |-> TRUE, pair |-> FALSE], GrayRow(0, 18, 15))
G16 == \/ \E n \in 1..K(4, 6) : \E i \in 0..((3 ^ n) - 1) : \E p \in {1, 10} :
            c = CallQ("hist", [prec |-> p, precq |-> 0], Im(n, 1, 1, FALSE, Seqn(i, n, <<0, 2, 7>>)), 15)
       \/ \E n \in 1..3 : \E i \in 0..((4 ^ n) - 1) : \E al \in {0, 8, 16} :
            c = Call("histeq", [al |-> al, alq |-> 4, white |-> "D65", prec |-> 2, precq |-> 0],
                     Im(n, 1, 3, FALSE, [k \in 1..(3 * n) |-> Seqn(i, n, <<0, 100, 101, 255>>)[((k - 1) \div 3) + 1]]))

------------------------------------------------------------------------------
(* Linear filters are bilinear in image and kernel: unit images against unit kernels decide them. *)
G17 == \E w \in 1..3 : \E h \in 1..3 : \E i \in 1..(w * h) : \E n \in {1, 3, 5} :
         LET im == Im(w, h, 1, FALSE, Unit(w * h, i)) IN
         \/ \E j \in 1..n : \E v \in BOOLEAN :
              c = CallQ("filter1d", [ker |-> Unit(n, j), kerq |-> 0, v |-> v], im, 0)
         \/ \E j \in 1..(n * n) : Keep(i + j, 2) /\ c = CallQ("unsep", [ker |-> Unit(n * n, j), kerq |-> 0], im, 0)
         \/ \E j \in 1..n : \E k \in 1..n : Keep(i + j + k, 2) /\
              c = CallQ("sep", [vk |-> Unit(n, j), vkq |-> 0, hk |-> Unit(n, k), hkq |-> 0], im, 0)
(* all 3 x 3 kernels over {-1, 0, 1} *)
G18 == \/ \E i \in 0..((3 ^ 9) - 1) : Keep(i, 12) /\ c = [op |-> "sepker", p |-> [ker |-> Seqn(i, 9, <<-1, 0, 1>>), kerq |-> 0], oq |-> 10]
       \/ \E v \in 0..26 : \E h \in 0..26 : c = [op |-> "sepker", p |-> [ker |-> Outer(Seqn(v, 3, <<-1, 0, 3>>), Seqn(h, 3, <<-1, 0, 2>>)), kerq |-> 0], oq |-> 10]
       \/ \E i \in 0..((3 ^ 9) - 1) : \E t \in 1..4 : Keep(i, 120) /\
            c = CallQ("linear", [ker |-> Seqn(i, 9, <<-1, 0, 1>>), kerq |-> 0, tol |-> 8], Im(2, 2, 1, FALSE, [Unit(4, t) EXCEPT ![t] = 100]), 6)
G19 == \E w \in 1..3 : \E h \in 1..3 : \E i \in 1..(w * h) : \E n \in {1, 3, 5, 7} :
         LET im == Im(w, h, 1, FALSE, [Unit(w * h, i) EXCEPT ![i] = 255]) IN
         \/ c = CallQ("box", [n |-> n], im, 8)
         \/ \E wt \in {0, 1, 2, 9} : wt + n > 1 /\ Keep(i + wt, 2) /\ c = CallQ("wavg", [n |-> n, wt |-> wt], im, 8)
         \/ \E sg \in {1, 4} : Keep(i + n, 2) /\ c = CallQ("gauss", [n |-> n, sg |-> sg, sgq |-> 1], im, 4)
G20 == \/ \E i \in 0..511 : \E o \in {"prewitt", "sobel"} : Keep(i, 2) /\ c = CallQ(o, [z |-> 0], Im(3, 3, 1, FALSE, Seqn(i, 9, <<0, 255>>)), 4)
       \/ \E w \in 1..3 : \E h \in 1..3 : \E i \in 1..(w * h) :
            LET im == Im(w, h, 1, FALSE, [Unit(w * h, i) EXCEPT ![i] = 255]) IN
            \/ \E o \in {"laplacian", "sharpen"} : c = CallQ(o, [z |-> 0], im, 0)
            \/ c = CallQ("unsharp", [z |-> 0], im, 8)
            \/ \E wt \in {0, 1, 2, 5} : c = CallQ("sobelw", [wt |-> wt], im, 4)
            \/ \E n \in {1, 3, 5, 7, 9} : \E sg \in {2, 4, 6, 8} : Keep(n + sg, 2) /\ c = CallQ("log", [n |-> n, sg |-> sg, sgq |-> 2], im, 8)
       \/ \E n \in 2..4 : \E i \in 0..((3 ^ n) - 1) : c = CallQ("normlap", [z |-> 0], Im(n, 1, 1, FALSE, Seqn(i, n, <<-1000, 3, 700>>)), 0)
G21 == \E t \in -1..256 : \E m \in 1..5 : Keep(t + m, 6) /\
         c = CallQ("threshold", [t |-> t, tq |-> 0, max |-> 200, maxq |-> 0, method |-> Methods[m]], Ramp(256, 1, FALSE), 0)

------------------------------------------------------------------------------
(* Order statistics commute with increasing maps: few levels decide them. *)
G22 == \/ \E w \in 1..3 : \E h \in 1..2 : \E i \in 0..((3 ^ (w * h)) - 1) : \E r \in 0..2 : Keep(i + r, 2) /\
            c = Call("median", [r |-> r], Im(w, h, 1, FALSE, Seqn(i, w * h, <<0, 100, 255>>)))
       \/ \E i \in 0..511 : \E r \in 1..2 : Keep(i, 2) /\ c = Call("median", [r |-> r], Im(3, 3, 1, FALSE, Seqn(i, 9, <<7, 8>>)))
       \/ \E i \in 0..4095 : Keep(i, 8) /\ c = Call("median", [r |-> 1], Im(6, 2, 1, FALSE, Seqn(i, 12, <<254, 255>>)))
       \/ \E i \in 0..((3 ^ 7) - 1) : Keep(i, 8) /\ c = Call("median", [r |-> 1], Im(1, 7, 1, FALSE, Seqn(i, 7, <<0, 1, 2>>)))
G23 == \/ \E w \in 1..3 : \E h \in 1..2 : \E i \in 0..((3 ^ (w * h)) - 1) : \E al \in {0, 2, 4, 6, 8} : Keep(i + (al \div 2), 3) /\
            c = Call("trimmed", [r |-> 1, al |-> al], Im(w, h, 1, FALSE, Seqn(i, w * h, <<0, 100, 255>>)))
       \/ \E i \in 0..511 : \E al \in {2, 4, 6} : Keep(i + al, 4) /\ c = Call("trimmed", [r |-> 1, al |-> al], Im(3, 3, 1, FALSE, Seqn(i, 9, <<7, 9>>)))
       \/ \E al \in 0..24 : \E s \in 0..9 : (al % 2) = 0 /\ c = Call("trimmed", [r |-> 2, al |-> al], Im(9, 3, 1, FALSE, Noise(27, s + Seed)))
Gray3(w, h, s) == Im(w, h, 3, FALSE, [i \in 1..(3 * w * h) |-> s[((i - 1) \div 3) + 1]])
BilP(sym, g) == [range |-> 60, rangeq |-> 2, sp |-> 1, spq |-> 0, gray |-> g, exact |-> FALSE, sym |-> sym]
Mirror(w, h, s, sym) == [t \in 1..(w * h) |->
    IF sym = "t" THEN LET x == (t - 1) % h y == (t - 1) \div h IN s[(x * w) + y + 1]
    ELSE LET x == (t - 1) % w y == (t - 1) \div w IN
         IF sym = "h" THEN s[(y * w) + ((w - 1) - x) + 1] ELSE s[(((h - 1) - y) * w) + x + 1]]
G24 == \E w \in 1..2 : \E h \in 1..2 : \E i \in 0..((3 ^ (w * h)) - 1) : \E sym \in {"h", "v", "t"} : Keep(i, 2) /\
         LET s == TLCEval(Seqn(i, w * h, <<20, 120, 140>>)) m == TLCEval(Mirror(w, h, s, sym)) IN
         c = PairOf(Call("bilateral", BilP(sym, TRUE), Gray3(w, h, s)),
                    Call("bilateral", BilP(sym, TRUE), IF sym = "t" THEN Gray3(h, w, m) ELSE Gray3(w, h, m)))

------------------------------------------------------------------------------
BW == <<0, 255>>
G25 == \E w \in 1..3 : \E h \in 1..3 : \E i \in 0..((2 ^ (w * h)) - 1) : \E r \in 0..2 :
         \E o \in {"erode", "dilate", "majority", "gradient"} : (w * h < 9 \/ Keep(i + r, 3)) /\
            c = Call(o, [r |-> r], Im(w, h, 1, FALSE, Seqn(i, w * h, BW)))
(* pairs that differ in one pixel: monotonicity follows along chains *)
G26 == \E w \in 1..3 : \E h \in 1..3 : \E i \in 0..((2 ^ (w * h)) - 1) : \E r \in 0..2 : (w * h < 9 \/ Keep(i + r, 6)) /\
         LET s == TLCEval(Seqn(i, w * h, BW)) IN
         \/ \E o \in {"open2", "close2"} : c = Call(o, [r |-> r, pair |-> FALSE], Im(w, h, 1, FALSE, s))
         \/ \E o \in {"open", "close"} : \E k \in 1..(w * h) : s[k] = 0 /\ (w * h < 6 \/ Keep(i + k, 3)) /\
              c = PairOf(Call(o, [r |-> r, pair |-> TRUE], Im(w, h, 1, FALSE, s)),
                         Call(o, [r |-> r, pair |-> TRUE], Im(w, h, 1, FALSE, [s EXCEPT ![k] = 255])))
(* tables and sums are linear in the image *)
G27 == \E w \in 1..K(3, 4) : \E h \in 1..K(3, 4) : \E i \in 1..(w * h) :
         LET im == Im(w, h, 1, FALSE, Unit(w * h, i)) IN
         \/ c = CallQ("sat", [z |-> 0], im, 0)
         \/ \E x0 \in 0..(w-1) : \E x1 \in x0..(w-1) : \E y0 \in 0..(h-1) : \E y1 \in y0..(h-1) : Keep(i + x0 + y1, 2) /\
              c = CallQ("rectsum", [x0 |-> x0, y0 |-> y0, x1 |-> x1, y1 |-> y1], im, 0)
G28 == \E w \in 1..3 : \E h \in 1..3 :
         LET im == Im(w, h, 1, FALSE, Tag(w * h)) IN
         \/ \E x \in 0..(w+1) : \E y \in 0..(h+1) : \E u \in 0..(w+1) : \E v \in 0..(h+1) : Keep(x + y + u + v, 2) /\
              c = CallT("crop", [x |-> x, y |-> y, w |-> u, h |-> v], im, "u8")
         \/ \E x \in 0..(w+1) : \E y \in 0..(h+1) : c = CallT("translate", [x |-> x, y |-> y], im, "u8")
         \/ \E ax \in {"Horizontal", "Vertical"} : \E o \in {"reflect", "reflect2"} : c = CallT(o, [axis |-> ax], im, "u16")
         \/ \E x \in 0..(w+1) : \E y \in 0..(h+1) : \E u \in 0..3 : \E v \in 0..3 : Keep(x + y + u + v + w + h, 3) /\
              c = CallB("overlay", [x |-> x, y |-> y], im, Im(u, v, 1, FALSE, [i \in 1..(u * v) |-> 100 + i]), 0)
G29 == \E w \in 1..3 : \E h \in 1..2 :
         LET im == Im(w, h, 1, FALSE, Tag(w * h)) IN
         \/ \E x \in 0..w : \E y \in 0..h : \E u \in 0..3 : \E v \in 0..2 : \E wt \in 0..8 : Keep(x + y + u + v + wt, 4) /\
              c = CallB("superimpose", [x |-> x, y |-> y, wt |-> wt, wtq |-> 3], im, Im(u, v, 1, FALSE, [i \in 1..(u * v) |-> 100 + i]), 3)
         \/ c = [op |-> "residual", p |-> [z |-> 0], in |-> im, b |-> Im(w, h, 1, FALSE, [i \in 1..(w * h) |-> 17 * i]), oq |-> 0, ty |-> "i16"]
G30 == \E w \in 1..3 : \E h \in 1..3 : \E xf \in 0..12 : \E yf \in 0..12 : \E m \in {"nn", "bilinear", "bicubic"} :
         Keep(w + (2 * h) + xf + (3 * yf), 7) /\
         (m = "bicubic" => (xf \div Gcd(xf, 4)) * (yf \div Gcd(yf, 4)) <= 61) /\
         c = CallQ("scale", [xf |-> xf, xfq |-> 2, yf |-> yf, yfq |-> 2, method |-> m],
                   Im(w, h, 1, FALSE, Noise(w * h, w + h + Seed)), CASE m = "nn" -> 0 [] m = "bilinear" -> 8 [] OTHER -> 6)
TagPix(w, h, ch, a) == Im(w, h, ch, a, [i \in 1..(w * h * ch) |-> (4 * ((i - 1) \div ch)) + ((i - 1) % ch) + 1])
G31 == \E s \in {<<1, 1>>, <<2, 3>>, <<5, 2>>, <<4, 4>>} : \E d \in 0..360 : Keep(d + s[1], 2) /\
         c = CallQ("rotate", [deg |-> d, degq |-> 0], TagPix(s[1], s[2], 1, FALSE), 0)
G32 == \/ \E w \in 1..3 : \E h \in 1..3 : \E s \in -10..10 : \E v \in BOOLEAN :
            c = CallQ("shear", [sx |-> IF v THEN 0 ELSE s, sxq |-> 2, sy |-> IF v THEN s ELSE 0, syq |-> 2], Im(w, h, 1, FALSE, Tag(w * h)), 0)
       \/ \E s \in -6..6 : \E t \in -6..6 : s # 0 /\ t # 0 /\ c = CallQ("shear", [sx |-> s, sxq |-> 2, sy |-> t, syq |-> 2], Im(3, 2, 1, FALSE, Tag(6)), 0)
G33 == \/ \E t \in {"f32u8", "f64u8", "f32f64u8"} : c = Call("conv", [from |-> "u8", to |-> t], Ramp(256, 1, FALSE))
       \/ \E f \in {"f32", "f64"} : \E k \in 0..3 : c = Call("conv", [from |-> f, to |-> "u8"], ImQ(300, 1, 1, FALSE, 2, [i \in 1..300 |-> ((i - 20) * 4) + k]))
       \/ \E s \in 1..260 : Keep(s, 4) /\ c = Call("rt_u8f", [scale |-> s], Ramp(256, 1, FALSE))
       \/ \E s \in 1..260 : Keep(s, 13) /\ c = CallQ("u82f", [scale |-> s], Ramp(256, 1, FALSE), 12)
       \/ \E s \in 1..260 : Keep(s, 13) /\ c = Call("f2u8", [scale |-> s], ImQ(64, 1, 1, FALSE, 6, [i \in 1..64 |-> ((i - 2) * s) + (Seed % 7)]))

------------------------------------------------------------------------------
(* C35: both sides of every boundary *)
G35 == LET g3 == Im(3, 3, 1, FALSE, Noise(9, 1)) rgb == Im(2, 2, 3, FALSE, Noise(12, 2)) IN
    \/ \E b \in {-32768, -300, -257, -256, -255, -254, -1, 0, 1, 254, 255, 256, 257, 511, 32767} :
         \/ \E o \in {"brightness", "brightness_lab"} : c = Call(o, [b |-> b], rgb)
         \/ c = Call("saturation", [s |-> b], rgb)
    \/ \E g \in {-1000000, -256, -1, 0, 1, 128, 255, 256, 257, 512, 1000000} : \E o \in {"contrast", "contrast_lab"} : c = Call(o, [g |-> g, gq |-> 8], rgb)
    \/ \E e \in {-1000, -16, -1, 1, 16, 100} : c = Call("gamma", [e |-> e, eq |-> 4, m |-> 255], rgb)
    \/ \E al \in {-1, 0, 8, 16, 17} : \E p \in {-1, 0, 1, 5} : c = Call("histeq", [al |-> al, alq |-> 4, white |-> "D50", prec |-> p, precq |-> 0], rgb)
    \/ \E n \in 1..8 : \E v \in BOOLEAN : c = CallQ("filter1d", [ker |-> Unit(n, 1), kerq |-> 0, v |-> v], g3, 0)
    \/ \E n \in 1..6 : \E m \in 1..6 : \/ c = CallQ("sep", [vk |-> Unit(n, 1), vkq |-> 0, hk |-> Unit(m, 1), hkq |-> 0], g3, 0)
                                       \/ c = CallQ("deriv", [vk |-> Unit(n, 1), vkq |-> 0, hk |-> Unit(m, 1), hkq |-> 0], g3, 4)
    \/ \E n \in 1..50 : \E o \in {"unsep", "linear"} : c = CallQ(o, [ker |-> Unit(n, (n + 1) \div 2), kerq |-> 0], g3, 6)
    \/ \E n \in 0..9 : \/ c = CallQ("box", [n |-> n], g3, 8)
                       \/ c = CallQ("wavg", [n |-> n, wt |-> 2], g3, 8)
                       \/ c = CallQ("gauss", [n |-> n, sg |-> 2, sgq |-> 0], g3, 4)
                       \/ c = CallQ("log", [n |-> n, sg |-> 4, sgq |-> 2], g3, 8)
                       \/ \E o \in {"gkern", "logkern"} : c = [op |-> o, p |-> [n |-> n, sg |-> 4, sgq |-> 2], oq |-> 15]
                       \/ \E sg \in {-4, -1, 4} : c = [op |-> "spatial", p |-> [n |-> n, sg |-> sg, sgq |-> 2], oq |-> 15]
    \/ \E l \in AnyLayouts : LET im == Im(2, 2, l[1], l[2], [i \in 1..(4 * l[1]) |-> IF i % 3 = 0 THEN 255 ELSE 0]) IN
         \/ \E o \in {"prewitt", "sobel"} : c = CallQ(o, [z |-> 0], im, 4)
         \/ c = CallQ("sobelw", [wt |-> 3], im, 4)
         \/ c = CallQ("normlap", [z |-> 0], im, 0)
         \/ \E m \in 1..5 : c = CallQ("threshold", [t |-> 3, tq |-> 0, max |-> 200, maxq |-> 0, method |-> Methods[m]], im, 0)
         \/ \E o \in {"erode", "dilate", "majority", "gradient", "open", "close"} : c = Call(o, [r |-> 1], im)
         \/ \E l2 \in AnyLayouts : LET b == Im(1, 2, l2[1], l2[2], Tag(2 * l2[1])) b2 == Im(2, 2, l2[1], l2[2], Tag(4 * l2[1])) IN
              \/ c = CallB("overlay", [x |-> 1, y |-> 0], im, b, 0)
              \/ \E wt \in {-1, 0, 5, 8, 9} : Keep(wt + l[1] + l2[1], 2) /\ c = CallB("superimpose", [x |-> 1, y |-> 0, wt |-> wt, wtq |-> 3], im, b, 3)
              \/ c = CallB("residual", [z |-> 0], im, [b2 EXCEPT !.d = TLCEval([i \in 1..(4 * l2[1]) |-> 0])], 0)
    \/ \E r \in 0..2 : \E al \in 0..26 : Keep(r + al, 1) /\ c = Call("trimmed", [r |-> r, al |-> al], g3)
    \/ \E rn \in {-4, -1, 1, 4} : \E sp \in {-4, -1, 1, 4} : c = Call("bilateral", [range |-> rn, rangeq |-> 2, sp |-> sp, spq |-> 2], rgb)
    \/ \E x \in 0..4 : \E y \in 0..4 : \E u \in 0..4 : \E v \in 0..4 : Keep(x + (2 * y) + (3 * u) + (5 * v), 3) /\ c = CallT("crop", [x |-> x, y |-> y, w |-> u, h |-> v], g3, "u8")
    \/ \E x \in {-8, -1, 0, 1, 8} : \E y \in {-8, -1, 0, 1, 8} :
         \/ \E m \in {"nn", "bilinear", "bicubic", "lanczos"} : c = CallQ("scale", [xf |-> x, xfq |-> 2, yf |-> y, yfq |-> 2, method |-> m], g3, 2)
         \/ c = CallQ("lanczos", [xf |-> x, xfq |-> 2, yf |-> y, yfq |-> 2, n |-> 2], g3, 2)
    \/ \E n \in 1..5 : \E m \in 1..26 :
         \/ \E v \in BOOLEAN : m < 8 /\ c = CallQ("kernel1", [ker |-> Unit(m, 1), kerq |-> 0, n |-> n, x |-> 1, y |-> 1, v |-> v, pre |-> <<>>, preq |-> 0], g3, 0)
         \/ c = CallQ("kernel2", [ker |-> Unit(m, 1), kerq |-> 0, n |-> n, x |-> 1, y |-> 1, pre |-> <<>>, preq |-> 0], g3, 0)
    \/ \E n \in 1..4 : \E m \in 1..17 : \E o \in {"vecmul", "vecmuli"} : c = [op |-> o, p |-> [mat |-> Unit(m, 1), matq |-> 0, vec |-> Unit(n, 1), vecq |-> 0], oq |-> 0]

------------------------------------------------------------------------------
G36 == \/ \E w \in 1..K(9, 40) : \E k \in 0..K(30, 120) : c = [op |-> "coords", p |-> [k |-> k, w |-> w], oq |-> 0]
       \/ \E i \in 0..26 : \E o \in {"max3", "min3"} : c = [op |-> o, p |-> [v |-> Seqn(i, 3, <<-5, 2, 9>>), vq |-> 0], oq |-> 0]
       \/ \E i \in 0..255 : \E o \in {"max4", "min4"} : c = [op |-> o, p |-> [v |-> Seqn(i, 4, <<-5, 2, 9, 700>>), vq |-> 0], oq |-> 0]
       \/ \E i \in 0..255 : \E v \in {<<1, 0>>, <<0, 1>>, <<3, -7>>} :
            \/ \E o \in {"vecmul", "vecmuli"} : c = [op |-> o, p |-> [mat |-> Seqn(i, 4, <<-1, 0, 1, 4>>), matq |-> 0, vec |-> v, vecq |-> 0], oq |-> 0]
       \/ \E n \in 1..4 : \E i \in 1..(n * n) : \E j \in 1..n :
            c = [op |-> "vecmul", p |-> [mat |-> Unit(n * n, i), matq |-> 0, vec |-> Unit(n, j), vecq |-> 0], oq |-> 0]
       \/ \E x \in -6..6 : c = [op |-> "clampz", p |-> [v |-> x, vq |-> 1], oq |-> 1]
       \/ \E x1 \in 0..5 : \E y1 \in 0..5 : \E x2 \in {0, 3, 7} : \E y2 \in {0, 4} :
            c = [op |-> "distance", p |-> [x1 |-> x1, y1 |-> y1, x2 |-> x2, y2 |-> y2], oq |-> 8]

------------------------------------------------------------------------------
(* One call per operation, layout and size: shapes (C05), alpha (C06), configurations (C09). *)
Grays == {<<1, FALSE>>, <<2, TRUE>>}
Colours == {<<3, FALSE>>, <<4, TRUE>>}
NoArg == [z |-> 0]
BwIm(w, h, ch, a, s) == LET im == Noise(w * h * ch, s) IN
    Im(w, h, ch, a, [i \in 1..(w * h * ch) |-> IF a /\ (i % ch) = 0 THEN im[i] ELSE IF im[i] > 90 THEN 255 ELSE 0])
KerS(n, s) == [i \in 1..n |-> ((i * (s + 3)) % 7) - 2]
(* the operations that accept any layout, and empty images *)
OnAny(im, s) ==
    {Call("brightness", [b |-> 40 - (20 * s)], im), Call("contrast", [g |-> 100 + (78 * s), gq |-> 8], im),
     CallQ("sat", NoArg, im, 0), CallQ("box", [n |-> (2 * s) + 1], im, 8), CallQ("wavg", [n |-> 3, wt |-> s + 1], im, 8),
     CallQ("gauss", [n |-> (2 * s) + 1, sg |-> 3 + s, sgq |-> 1], im, 4), CallQ("sharpen", NoArg, im, 0), CallQ("unsharp", NoArg, im, 8),
     CallQ("filter1d", [ker |-> KerS((2 * s) + 1, s), kerq |-> 0, v |-> s = 1], im, 0),
     CallQ("sep", [vk |-> KerS(3, s), vkq |-> 0, hk |-> KerS(3, s + 1), hkq |-> 0], im, 0),
     CallQ("unsep", [ker |-> KerS(9, s), kerq |-> 0], im, 0),
     CallQ("linear", [ker |-> KerS(9, s), kerq |-> 0, tol |-> 0], im, 6),
     CallT("translate", [x |-> s, y |-> 2 - s], im, "u8"), CallT("reflect", [axis |-> IF s = 1 THEN "Horizontal" ELSE "Vertical"], im, "u16"),
     CallT("crop", [x |-> im.w \div 2, y |-> im.h \div 3, w |-> im.w - (im.w \div 2), h |-> im.h - (im.h \div 3)], im, "f32"),
     CallB("overlay", [x |-> s, y |-> s \div 2], im, Im(2, 3, im.c, im.a, Noise(6 * im.c, s)), 0),
     CallB("superimpose", [x |-> s \div 2, y |-> s, wt |-> 3 * s, wtq |-> 3], im, Im(3, 2, im.c, im.a, Noise(6 * im.c, s)), 3),
     CallQ("shear", [sx |-> (5 * s) - 4, sxq |-> 2, sy |-> 0, syq |-> 2], im, 0), CallQ("shear", [sx |-> 0, sxq |-> 2, sy |-> 3 - (4 * s), syq |-> 2], im, 0),
     CallQ("u82f", [scale |-> 1 + s], im, 10)}
    \cup (IF im.w * im.h = 0 THEN {} ELSE
     {CallQ("scale", [xf |-> 3 + (2 * s), xfq |-> 2, yf |-> 7 - (3 * s), yfq |-> 2, method |-> m], im, 6) : m \in {"nn", "bilinear", "bicubic", "lanczos"}}
     \cup {CallQ("rotate", [deg |-> d + s, degq |-> 0], im, 0) : d \in {0, 30, 88, 178, 269, 358}}
     \cup {Call("median", [r |-> s], im), Call("trimmed", [r |-> 1, al |-> 2 * s], im)})
OnGray(w, h, l, s) ==
    LET im == Im(w, h, l[1], l[2], Noise(w * h * l[1], (w + h) + s)) b == BwIm(w, h, l[1], l[2], w + (3 * h) + s) IN
    {CallQ("threshold", [t |-> 100, tq |-> 0, max |-> 200, maxq |-> 0, method |-> Methods[(s % 5) + 1]], im, 0),
     CallQ("prewitt", NoArg, im, 4), CallQ("sobel", NoArg, im, 4), CallQ("sobelw", [wt |-> s], im, 4), CallQ("laplacian", NoArg, im, 0),
     CallQ("deriv", [vk |-> KerS(3, s), vkq |-> 0, hk |-> KerS(3, s + 2), hkq |-> 0], im, 4)}
    \cup (IF w * h = 0 THEN {} ELSE {Call(o, [r |-> s], b) : o \in {"erode", "dilate", "majority", "gradient", "open", "close"}})
OnColour(im, s) ==
    {Call("brightness_lab", [b |-> 30 - (25 * s), ramp |-> FALSE, pair |-> FALSE], im), Call("contrast_lab", [g |-> 200 + (20 * s), gq |-> 8, ramp |-> FALSE, pair |-> FALSE], im),
     Call("saturation", [s |-> 60 - (50 * s)], im), Call("hsv", NoArg, im), CallQ("hsvf", NoArg, im, 16), CallQ("srgb2lab", [white |-> "D50"], im, 12),
     CallQ("srgb2xyz", NoArg, im, 15), CallQ("lin", NoArg, im, 15)}
    \cup (IF im.w * im.h = 0 THEN {} ELSE {Call("gray", NoArg, im), Call("histeq", [al |-> 8, alq |-> 4, white |-> "D65", prec |-> 5, precq |-> 0], im)})
Sz == IF Deep THEN (0..6) \X (0..6) \cup {<<1, 16>>, <<17, 1>>, <<33, 1>>, <<1, 40>>, <<11, 3>>, <<16, 2>>, <<8, 8>>, <<65, 1>>}
      ELSE (0..4) \X (0..4) \cup {<<1, 16>>, <<17, 1>>, <<33, 1>>, <<11, 3>>}
ImOf(z, l, s) == Im(z[1], z[2], l[1], l[2], Noise(z[1] * z[2] * l[1], z[1] + (2 * z[2]) + s))
Matrix(m, P(_)) == \E z \in Sz : \E s \in 0..2 :
    \/ \E l \in AnyLayouts : Keep(z[1] + (2 * z[2]) + s + l[1], m) /\ \E e \in OnAny(ImOf(z, l, s), s) : P(e) /\ c = e
    \/ \E l \in Grays : Keep(z[1] + (2 * z[2]) + s + l[1], m) /\ \E e \in OnGray(z[1], z[2], l, s) : P(e) /\ c = e
    \/ \E l \in Colours : Keep(z[1] + (2 * z[2]) + s + l[1], m) /\ \E e \in OnColour(ImOf(z, l, s), s) : P(e) /\ c = e
G05 == Matrix(3, LAMBDA e : TRUE)
G09 == Matrix(5, LAMBDA e : TRUE)
(* pairs that differ in alpha, at every position *)
FlipA(im) == [im EXCEPT !.d = TLCEval([i \in 1..Len(@) |-> IF i % im.c = 0 THEN (@[i] + 1 + ((i * 37) % 254)) % 256 ELSE @[i]])]
AlphaOps == {"brightness", "contrast", "threshold", "prewitt", "sobel", "sobelw", "deriv", "erode", "dilate", "majority", "gradient", "open", "close",
             "brightness_lab", "contrast_lab", "saturation", "hsv", "hsvf", "srgb2lab", "srgb2xyz", "lin", "gray", "histeq"}
G06 == \E z \in (Sz \ {<<0, 0>>}) : z[1] * z[2] > 0 /\ \E s \in 0..2 :
    \/ \E l \in {<<2, TRUE>>, <<4, TRUE>>} : Keep(z[1] + z[2] + s, 2) /\ \E e \in OnAny(ImOf(z, l, s), s) : e.op \in AlphaOps /\ c = PairOf(e, [e EXCEPT !.in = FlipA(@)])
    \/ Keep(z[1] + z[2] + s, 2) /\ \E e \in OnGray(z[1], z[2], <<2, TRUE>>, s) : e.op \in AlphaOps /\ c = PairOf(e, [e EXCEPT !.in = FlipA(@)])
    \/ Keep(z[1] + z[2] + s, 2) /\ \E e \in OnColour(ImOf(z, <<4, TRUE>>, s), s) : e.op \in AlphaOps /\ c = PairOf(e, [e EXCEPT !.in = FlipA(@)])

------------------------------------------------------------------------------
Cases == CASE Prop = "C02" -> G02 [] Prop = "C05" -> G05 [] Prop = "C06" -> G06 [] Prop = "C09" -> G09 [] Prop = "C04" -> G04 [] Prop = "C07" -> G07 [] Prop = "C08" -> G08 [] Prop = "C10" -> G10
           [] Prop = "C11" -> G11 [] Prop = "C12" -> G12 [] Prop = "C13" -> G13 [] Prop = "C14" -> G14 [] Prop = "C15" -> G15
           [] Prop = "C16" -> G16 [] Prop = "C17" -> G17 [] Prop = "C18" -> G18 [] Prop = "C19" -> G19 [] Prop = "C20" -> G20
           [] Prop = "C21" -> G21 [] Prop = "C22" -> G22 [] Prop = "C23" -> G23 [] Prop = "C24" -> G24 [] Prop = "C25" -> G25
           [] Prop = "C26" -> G26 [] Prop = "C27" -> G27 [] Prop = "C28" -> G28 [] Prop = "C29" -> G29 [] Prop = "C30" -> G30
           [] Prop = "C31" -> G31 [] Prop = "C32" -> G32 [] Prop = "C33" -> G33 [] Prop = "C35" -> G35 [] Prop = "C36" -> G36
Init == Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
