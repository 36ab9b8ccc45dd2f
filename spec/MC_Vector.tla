------------------------------ MODULE MC_Vector ------------------------------
(***************************************************************************)
(* The vector loops as state machines: a chunk of W bytes is loaded, added *)
(* to under a byte mask and stored, the position advances by a step, and   *)
(* a scalar loop finishes.  Bytes are abstract: what matters is which      *)
(* source byte was used and whether the value was added.                   *)
(*                                                                         *)
(*   adds   step W without alpha, W - W mod c with alpha                   *)
(*   addsn  step W - W mod c, mask by channel number                       *)
(*   avg3   reads W pixels of 3 bytes at once, stores W gray bytes         *)
(*   avg4   reads W pixels of 4 bytes, stores 2 W bytes as four half chunks*)
(*                                                                         *)
(* Invariants: no access leaves a buffer (InBounds), and when the machine  *)
(* has finished every output byte is what the scalar definition says       *)
(* (Right).  The lanes are those of a 256-bit register made of two halves: *)
(* unpack works within each half.                                          *)
(* Every finished run is printed as a call for the real code.              *)
(***************************************************************************)
EXTENDS ImgBase, Json, IOUtils, TLC

Prop == IOEnv.PROP
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
W == 32
H == W \div 2

VARIABLES op, c, a, sel, n, pos, out, phase, oob
vars == <<op, c, a, sel, n, pos, out, phase, oob>>

(* An output byte: [src |-> source bytes (0-based), f |-> what was done]. *)
Unset == [s |-> -1, f |-> "unset"]
Copy(j) == [s |-> j, f |-> "copy"]
Add(j) == [s |-> j, f |-> "add"]
Avg(j) == [s |-> j, f |-> "avg"]               \* mean of bytes j, j+1, j+2

Bytes == n * c
OutLen == CASE op = "avg3" -> Bytes \div 3 [] op = "avg4" -> Bytes \div 2 [] OTHER -> Bytes
(* The mask repeats the pixel pattern from the first byte of a chunk. *)
Masked(t) == IF op = "adds" THEN ~(a /\ t % c = c - 1) ELSE sel >= c \/ t % c = sel
Step == CASE op = "adds" -> (IF a THEN W - (W % c) ELSE W)
          [] op = "addsn" -> W - (W % c)
          [] OTHER -> W * c
Load == IF op \in {"adds", "addsn"} THEN W ELSE W * c

(* unpacklo/unpackhi of two registers r, s of W lanes, half by half *)
UnpackLo(r, s) == [t \in 0..(W - 1) |-> LET h == t \div H u == t % H IN IF u % 2 = 0 THEN r[(h * H) + (u \div 2)] ELSE s[(h * H) + (u \div 2)]]
UnpackHi(r, s) == [t \in 0..(W - 1) |-> LET h == t \div H u == t % H IN IF u % 2 = 0 THEN r[(h * H) + (H \div 2) + (u \div 2)] ELSE s[(h * H) + (H \div 2) + (u \div 2)]]
(* Four half-chunk stores: (offset of the low half, offset of the high half) of each register. *)
Store4(o, lo, hi, at) ==
    [j \in 1..Len(o) |->
        LET t == (j - 1) - at IN
        IF t < 0 \/ t >= 2 * W THEN o[j]
        ELSE IF t < H THEN lo[t]
        ELSE IF t < 2 * H THEN hi[t - H]
        ELSE IF t < 3 * H THEN lo[t - H]
        ELSE hi[t - (2 * H)]]

Chunk(o) ==
    CASE op \in {"adds", "addsn"} ->
            [j \in 1..Len(o) |-> LET t == (j - 1) - pos IN
                IF t < 0 \/ t >= W THEN o[j] ELSE IF Masked(t) THEN Add(j - 1) ELSE Copy(j - 1)]
      [] op = "avg3" ->
            [j \in 1..Len(o) |-> LET t == (j - 1) - (pos \div 3) IN IF t < 0 \/ t >= W THEN o[j] ELSE Avg(pos + (3 * t))]
      [] OTHER ->
            LET g == [t \in 0..(W - 1) |-> Avg(pos + (4 * t))]
                al == [t \in 0..(W - 1) |-> Copy(pos + (4 * t) + 3)]
            IN Store4(o, UnpackLo(g, al), UnpackHi(g, al), pos \div 2)
ChunkLo == CASE op = "avg3" -> pos \div 3 [] op = "avg4" -> pos \div 2 [] OTHER -> pos
ChunkLen == CASE op = "avg3" -> W [] op = "avg4" -> 2 * W [] OTHER -> W

Rest(o) ==
    CASE op \in {"adds", "addsn"} -> [j \in 1..Len(o) |-> IF j - 1 < pos THEN o[j] ELSE IF Masked(j - 1) THEN Add(j - 1) ELSE Copy(j - 1)]
      [] op = "avg3" -> [j \in 1..Len(o) |-> IF 3 * (j - 1) < pos THEN o[j] ELSE Avg(3 * (j - 1))]
      [] OTHER -> [j \in 1..Len(o) |-> IF 2 * (j - 1) < pos THEN o[j]
                       ELSE IF (j - 1) % 2 = 0 THEN Avg(2 * (j - 1)) ELSE Copy((2 * (j - 1)) + 1)]

MaxN == IF Deep THEN 140 ELSE 70
Init ==
    /\ op \in (CASE Prop \in {"C07", "C06"} -> {"adds"} [] Prop = "C10" -> {"avg3", "avg4"} [] OTHER -> {"adds", "addsn", "avg3", "avg4"})
    /\ c \in (CASE op = "avg3" -> {3} [] op = "avg4" -> {4} [] OTHER -> 1..(IF Deep THEN 7 ELSE 5))
    /\ a \in (CASE op = "avg3" -> {FALSE} [] op = "avg4" -> {TRUE} [] Prop = "C06" -> {TRUE} [] OTHER -> BOOLEAN)
    /\ sel \in (IF op = "addsn" THEN 0..c ELSE {0})
    /\ n \in 0..MaxN
    /\ n * c <= (IF op \in {"avg3", "avg4"} THEN 1000 ELSE IF Deep THEN 260 ELSE 130)
    /\ pos = 0 /\ phase = "loop" /\ oob = FALSE
    /\ out = [j \in 1..OutLen |-> Unset]
Loop ==
    /\ phase = "loop" /\ Step > 0 /\ pos + Load <= Bytes
    /\ out' = TLCEval(Chunk(out))
    /\ oob' = (oob \/ ChunkLo < 0 \/ ChunkLo + ChunkLen > OutLen)
    /\ pos' = pos + Step
    /\ UNCHANGED <<op, c, a, sel, n, phase>>
Finish ==
    /\ phase = "loop" /\ (Step <= 0 \/ pos + Load > Bytes)
    /\ out' = TLCEval(Rest(out))
    /\ phase' = "done"
    /\ UNCHANGED <<op, c, a, sel, n, pos, oob>>
Next == Loop \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
Wanted(j) ==                                    \* j from 0
    CASE op = "adds" -> IF a /\ j % c = c - 1 THEN Copy(j) ELSE Add(j)
      [] op = "addsn" -> IF sel >= c \/ j % c = sel THEN Add(j) ELSE Copy(j)
      [] op = "avg3" -> Avg(3 * j)
      [] OTHER -> IF j % 2 = 0 THEN Avg(2 * j) ELSE Copy((2 * (j - 1)) + 3)
Right == phase = "done" => \A j \in 1..Len(out) : out[j] = Wanted(j - 1)
(* Everything before the position is final already. *)
SoFar == LET fin == CASE op = "avg3" -> pos \div 3 [] op = "avg4" -> pos \div 2 [] OTHER -> pos IN
         \A j \in 1..Min2(fin, Len(out)) : out[j] = Wanted(j - 1)
InBounds == ~oob
Ends == <>(phase = "done")

(* Lane arithmetic: the saturating add/subtract of |v| is a clamped add, and the mean of three bytes is
   the high half of a 16-bit product with 2^16/3 rounded up. *)
Usat(x, y) == Min2(x + y, 255)
Ssat(x, y) == Max2(x - y, 0)
ASSUME \A v \in -255..255 : \A x \in {0, 1, 2, 126, 127, 128, 129, 253, 254, 255} :
          (IF v > 0 THEN Usat(x, Abs(v) % 256) ELSE Ssat(x, Abs(v) % 256)) = Clamp(x + v, 0, 255)
ASSUME \A s \in 0..765 : (s * 21846) \div 65536 = s \div 3
ASSUME \E s \in 0..765 : (s * 21845) \div 65536 # s \div 3

------------------------------------------------------------------------------
Noise(m, s) == [i \in 1..m |-> (((i + s) * (i + s) * 37) + ((i + s) * 91) + (s * 53)) % 256]
Img == [w |-> n, h |-> 1, c |-> c, a |-> a, q |-> 0, d |-> Noise(n * c, n + Seed)]
Img2 == [Img EXCEPT !.d = [i \in 1..Len(@) |-> IF i % c = 0 THEN 255 - @[i] ELSE @[i]]]
Val == LET v == ((n * 29) + (c * 41) + (Seed * 67)) % 256 IN IF (n + c) % 2 = 0 THEN v ELSE -v
Call == CASE Prop \in {"C07", "C05"} -> [op |-> "brightness", p |-> [b |-> Val], in |-> Img]
          [] Prop = "C06" -> [pair |-> <<[op |-> "brightness", p |-> [b |-> Val], in |-> Img], [op |-> "brightness", p |-> [b |-> Val], in |-> Img2]>>]
          [] Prop = "C10" -> [op |-> "gray", p |-> [z |-> 0], in |-> Img]
          [] op = "adds" -> [op |-> "adds", p |-> [val |-> Val, guard |-> 1], in |-> Img]
          [] op = "addsn" -> [op |-> "addsn", p |-> [val |-> Val, n |-> sel, guard |-> 2], in |-> Img]
          [] OTHER -> [op |-> op, p |-> [guard |-> 1], in |-> Img]
Usable == CASE Prop = "C10" -> n > 0
            [] Prop = "C06" -> (c \in {2, 4})
            [] Prop = "C08" -> TRUE
            [] OTHER -> TRUE
Thin == IF Prop = "C08" THEN 5 ELSE 2
Emit == (phase = "done" /\ Usable /\ (Deep \/ (n + c + sel + Seed) % Thin = 0)) => PrintT("CASE " \o ToJson(Call))
=============================================================================
