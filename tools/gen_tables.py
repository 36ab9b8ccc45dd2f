#!/usr/bin/env python3
"""Writes spec/Tables.tla: numeric constants of the published standards the specification refers to,
computed here from their definitions (never from the code under test)."""
import math, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'Tables.tla')
Q = 1 << 15
def seq(xs, per=16):
    rows = [', '.join(str(int(x)) for x in xs[i:i+per]) for i in range(0, len(xs), per)]
    return '<<' + ',\n    '.join(rows) + '>>'
def eotf(s):                       # IEC 61966-2-1
    return s/12.92 if s <= 0.04045 else ((s+0.055)/1.055)**2.4
def labf(t):                       # CIE 15
    d = 6/29
    return t**(1/3) if t > d**3 else t/(3*d*d)+4/29
def sinc(x): return 1.0 if x == 0 else math.sin(math.pi*x)/(math.pi*x)
def lanc(x, a): return sinc(x)*sinc(x/a) if -a < x < a else 0.0
lin = [round(eotf(v/255)*Q) for v in range(256)]
thr = [round(eotf((v-0.5)/255)*Q) for v in range(1, 256)]
lst = [round((116*labf(eotf(v/255))-16)*4096) for v in range(256)]
angs = [k/4 for k in range(0, 1440)]
txt = '---------------------------- MODULE Tables ----------------------------\n'
txt += '(* Generated by tools/gen_tables.py from the published definitions. *)\nEXTENDS Integers\n\n'
txt += '(* sRGB transfer function (IEC 61966-2-1): linear light of 8-bit level v, times 2^15 *)\nSrgbLin ==\n  ' + seq(lin) + '\n\n'
txt += '(* linear light (times 2^15) at which the nearest 8-bit level becomes v = 1..255 *)\nSrgbThr ==\n  ' + seq(thr) + '\n\n'
txt += '(* CIELAB lightness of the gray level v, times 2^12 *)\nLStarTab ==\n  ' + seq(lst) + '\n\n'
for a in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20):
    txt += f'(* Lanczos kernel of size {a} at offsets k/12, k = 0..{12*a}, times 2^14 *)\nLanczosTab{a} ==\n  ' + seq([round(lanc(k/12, a)*(1<<14)) for k in range(12*a+1)]) + '\n\n'
txt += '(* normalised sinc at k/128, k = 0..1025, times 2^14 *)\nSincTab ==\n  ' + seq([round(sinc(k/128)*(1<<14)) for k in range(1026)]) + '\n\n'
txt += '(* exp(-2^(k-11)), k = 1..15, i.e. exponents 2^-10 .. 2^4, times 2^15 *)\nExpTab ==\n  ' + seq([round(math.exp(-2.0**(k-11))*Q) for k in range(1, 16)]) + '\n\n'
txt += '(* cosine and sine of d quarter degrees, d = 0..1439, times 2^14 *)\nCosTab ==\n  ' + seq([round(math.cos(math.radians(d))*(1<<14)) for d in angs]) + '\n\n'
txt += 'SinTab ==\n  ' + seq([round(math.sin(math.radians(d))*(1<<14)) for d in angs]) + '\n\n'
# sRGB D65 matrices (Lindbloom), times 2^13
M = [0.4124564, 0.3575761, 0.1804375, 0.2126729, 0.7151522, 0.0721750, 0.0193339, 0.1191920, 0.9503041]
MI = [3.2404542, -1.5371385, -0.4985314, -0.9692660, 1.8760108, 0.0415560, 0.0556434, -0.2040259, 1.0572252]
txt += '(* linear sRGB -> XYZ (D65) and back, row-major, times 2^13 *)\nRgbToXyz ==\n  ' + seq([round(x*8192) for x in M]) + '\n\nXyzToRgb ==\n  ' + seq([round(x*8192) for x in MI]) + '\n\n'
txt += '(* reference whites D50 and D65, divided by 100, times 2^14 *)\nWhiteD50 ==\n  ' + seq([round(x*16384) for x in (0.964212, 1.0, 0.825188)]) + '\n\nWhiteD65 ==\n  ' + seq([round(x*16384) for x in (0.950489, 1.0, 1.088840)]) + '\n\n'
txt += '=============================================================================\n'
open(OUT, 'w').write(txt)
