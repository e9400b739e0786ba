-------------------------------- MODULE ILConv --------------------------------
(* Conversion of pixel data between formats and channel types.                *)
EXTENDS ILStates

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Bytes(n) == IF Known(n.dat) THEN n.dat ELSE IF Size(n) > 4000 THEN Wild ELSE [i \in 1..Size(n) |-> -9]

(* ------------------------------------------------- values of channels -- *)
Exact(e) == e >= 0 /\ e <= 255
Signed8(e) == IF e > 127 THEN e - 256 ELSE e
\* 16-bit value at two adjacent entries (-1: not known)
Val16(lo, hi) == IF IsP16(lo) THEN lo - 3000000 ELSE IF Exact(lo) /\ Exact(hi) THEN lo + 256 * hi ELSE -1
Signed16(v) == IF v > 32767 THEN v - 65536 ELSE v
\* An IEEE number given by sign, exponent (bias 127) and the leading 15 + 9 bits of its significand, in 1/65535ths.
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
Ieee(sgn, e, m15, m9, zero) ==
    IF zero \/ e < 111 THEN 0
    ELSE IF e > 141 THEN -99999
    ELSE LET d == Pow2(141 - e) x == m15 * 65535 v == (x \div d) + ((x % d) + ((m9 * 65535) \div 512) + d \div 2) \div d IN IF sgn THEN -v ELSE v
DecF32(d, c) == LET b(k) == d[4 * c + k] IN
    IF \E k \in 1..4 : ~Exact(b(k)) THEN -99999
    ELSE Ieee(b(4) > 127, (b(4) % 128) * 2 + b(3) \div 128, 16384 + (b(3) % 128) * 128 + b(2) \div 2, (b(2) % 2) * 256 + b(1), b(4) % 128 = 0 /\ b(3) < 128)
DecF64(d, c) == LET b(k) == d[8 * c + k] IN
    IF \E k \in 4..8 : ~Exact(b(k)) THEN -99999
    ELSE Ieee(b(8) > 127, (b(8) % 128) * 16 + b(7) \div 16 - 896, 16384 + (b(7) % 16) * 1024 + b(6) * 4 + b(5) \div 64, (b(5) % 64) * 8 + b(4) \div 32, b(8) % 128 = 0 /\ b(7) < 16)
FlOf(dat, fl, t) == IF fl # Wild THEN fl
                    ELSE IF ~Known(dat) THEN Wild
                    ELSE IF t = IL_FLOAT THEN [c \in 1..(Len(dat) \div 4) |-> DecF32(dat, c - 1)]
                    ELSE [c \in 1..(Len(dat) \div 8) |-> DecF64(dat, c - 1)]

(* --------------------------------------------------------------- types  -- *)
IntToInt(d, bs, bd) == IF bs = bd THEN d ELSE
    [j \in 1..((Len(d) \div bs) * bd) |->
       LET c == (j - 1) \div bd
           k == (j - 1) % bd
           e == d[c * bs + 1 + (IF bs = 1 THEN 0 ELSE IF bd < bs THEN k + bs - bd ELSE k % bs)]
       IN IF e >= 1000000 THEN -9 ELSE e]
IntToFl(d, t) ==
    LET bs == Bpc(t) IN
    [c \in 1..(Len(d) \div bs) |->
       IF bs = 1 THEN (IF Exact(d[c]) THEN (IF t = IL_BYTE THEN Signed8(d[c]) ELSE d[c]) * 257 ELSE -99999)
       ELSE LET v == Val16(d[c * bs - 1], d[c * bs]) IN
            IF v = -1 \/ (IsP16(d[c * bs - 1]) /\ Abs(v - 32768) < 20) THEN -99999 ELSE IF t \in {IL_SHORT, IL_INT} THEN Signed16(v) ELSE v]
Clamp16(v) == Min2(Max2(v, 0), 65535)
FlToInt(fl, bd) ==
    [j \in 1..(Len(fl) * bd) |->
       LET v == fl[(j - 1) \div bd + 1]
           k == (j - 1) % bd
           x == Clamp16(v)
       IN IF v = -99999 \/ k < bd - 2 THEN -9
          ELSE IF bd = 1 THEN Rng(Max2(x * 255 - 200, 0) \div 65535, (x * 255 + 200) \div 65535)
          ELSE P16(x, 1)[k - bd + 3]]
\* A buffer is [dat |-> bytes, fl |-> channel values (floating point types)].
TypeConv(b, t1, t2) ==
    IF t1 = t2 THEN b
    ELSE IF t1 \in FloatTypes
    THEN LET f == FlOf(b.dat, b.fl, t1) IN
         IF f = Wild THEN [dat |-> Wild, fl |-> Wild]
         ELSE IF t2 \in FloatTypes THEN [dat |-> Wild, fl |-> f] ELSE [dat |-> FlToInt(f, Bpc(t2)), fl |-> Wild]
    ELSE IF ~Known(b.dat) THEN [dat |-> Wild, fl |-> Wild]
    ELSE IF t2 \in FloatTypes THEN [dat |-> Wild, fl |-> IntToFl(b.dat, t1)]
    ELSE [dat |-> IntToInt(b.dat, Bpc(t1), Bpc(t2)), fl |-> Wild]

(* -------------------------------------------------------------- formats -- *)
\* source channel of each destination channel; 0: zero, -1: opaque, -2: luminance of red, green, blue
RgbPos(f) == CASE f \in {IL_RGB, IL_RGBA} -> <<1, 2, 3>> [] f \in {IL_BGR, IL_BGRA} -> <<3, 2, 1>>
               [] f \in {IL_LUMINANCE, IL_LUMINANCE_ALPHA} -> <<1, 1, 1>> [] OTHER -> <<0, 0, 0>>
APos(f) == CASE f \in {IL_RGBA, IL_BGRA} -> 4 [] f = IL_LUMINANCE_ALPHA -> 2 [] f = IL_ALPHA -> 1 [] OTHER -> -1
LPos(f) == CASE f \in {IL_LUMINANCE, IL_LUMINANCE_ALPHA} -> 1 [] f = IL_ALPHA -> 0 [] OTHER -> -2
ChanMap(f1, f2) ==
    LET r == RgbPos(f1) IN
    IF f1 = f2 THEN [i \in 1..Bpp(f1) |-> i]
    ELSE CASE f2 = IL_RGB -> r
           [] f2 = IL_BGR -> <<r[3], r[2], r[1]>>
           [] f2 = IL_RGBA -> Append(r, APos(f1))
           [] f2 = IL_BGRA -> <<r[3], r[2], r[1], APos(f1)>>
           [] f2 = IL_LUMINANCE -> <<LPos(f1)>>
           [] f2 = IL_LUMINANCE_ALPHA -> <<LPos(f1), APos(f1)>>
           [] f2 = IL_ALPHA -> << IF APos(f1) = -1 THEN 0 ELSE APos(f1) >>
\* Luminance: .212671 r + .715160 g + .072169 b, fraction dropped.
Lum8(r, g, b) == IF Exact(r) /\ Exact(g) /\ Exact(b)
                 THEN LET v == r * 212671 + g * 715160 + b * 72169 IN Rng(Max2(v - 200, 0) \div 1000000, (v + 200) \div 1000000)
                 ELSE -9
Lum16(r, g, b) == IF r < 0 \/ g < 0 \/ b < 0 THEN -1 ELSE (r * 6969 + g * 23434 + b * 2365) \div 32768
LumF(r, g, b) == IF Abs(r) > 65535 \/ Abs(g) > 65535 \/ Abs(b) > 65535 THEN -99999 ELSE (r * 6969 + g * 23434 + b * 2365) \div 32768
FullByte(t, k) == CASE t = IL_FLOAT -> <<0, 0, 128, 63>>[k + 1] [] t = IL_DOUBLE -> <<0, 0, 0, 0, 0, 0, 240, 63>>[k + 1] [] OTHER -> 255
MapBytes(d, t, f1, f2) ==
    LET m == ChanMap(f1, f2)
        u == Bpc(t)
        b1 == Bpp(f1)
        b2 == Len(m)
        P == RgbPos(f1)
    IN [i \in 1..((Len(d) \div (u * b1)) * b2 * u) |->
          LET p == (i - 1) \div (b2 * u)
              c == m[(((i - 1) \div u) % b2) + 1]
              k == (i - 1) % u
              v(j) == d[(p * b1 + P[j] - 1) * u + 1]
              w(j) == LET e == (p * b1 + P[j]) * u IN Val16(d[e - 1], d[e])
          IN IF c > 0 THEN d[(p * b1 + c - 1) * u + k + 1]
             ELSE IF c = 0 THEN 0
             ELSE IF c = -1 THEN FullByte(t, k)
             ELSE IF t \in FloatTypes \/ k < u - 2 THEN -9
             ELSE IF u = 1 THEN Lum8(v(1), v(2), v(3))
             ELSE LET l == Lum16(w(1), w(2), w(3)) IN IF l = -1 THEN -9 ELSE P16(l, 3)[k - u + 3]]
MapFl(f, f1, f2) ==
    LET m == ChanMap(f1, f2)
        b1 == Bpp(f1)
        b2 == Len(m)
        P == RgbPos(f1)
    IN [i \in 1..((Len(f) \div b1) * b2) |->
          LET p == (i - 1) \div b2
              c == m[((i - 1) % b2) + 1]
          IN IF c > 0 THEN f[p * b1 + c] ELSE IF c = 0 THEN 0 ELSE IF c = -1 THEN 65535
             ELSE LumF(f[p * b1 + P[1]], f[p * b1 + P[2]], f[p * b1 + P[3]])]
FormatConv(b, t, f1, f2) ==
    IF f1 = f2 THEN b
    ELSE [dat |-> IF Known(b.dat) THEN MapBytes(b.dat, t, f1, f2) ELSE Wild,
          fl |-> IF t \in FloatTypes /\ FlOf(b.dat, b.fl, t) # Wild THEN MapFl(FlOf(b.dat, b.fl, t), f1, f2) ELSE Wild]

(* ------------------------------------------------------------- palettes -- *)
PalLen(pt, pal) == IF PalBpp(pt) = 0 THEN 0 ELSE Len(pal) \div PalBpp(pt)
\* Entry i (from 0) as <<r, g, b, a>>.
PalEntry(pt, pal, i) ==
    LET w == PalBpp(pt)
        x(k) == pal[i * w + k]
        a == IF pt \in {IL_PAL_RGBA32, IL_PAL_BGRA32} THEN x(4) ELSE 255
    IN IF pt \in {IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32} THEN <<x(3), x(2), x(1), a>> ELSE <<x(1), x(2), x(3), a>>
PalOut(pt, e) == CASE pt = IL_PAL_RGB24 -> <<e[1], e[2], e[3]>> [] pt = IL_PAL_BGR24 -> <<e[3], e[2], e[1]>>
                   [] pt \in {IL_PAL_BGR32, IL_PAL_BGRA32} -> <<e[3], e[2], e[1], e[4]>> [] OTHER -> e
\* The 4th byte of a layout without alpha is kept when the layout stays one without alpha.
PalConv(pt, pal, q) ==
    LET w == PalBpp(q) IN
    IF pt = -9 \/ pal = Wild \/ IsHash(pal) THEN Wild
    ELSE [i \in 1..(PalLen(pt, pal) * w) |-> PalOut(q, PalEntry(pt, pal, (i - 1) \div w))[((i - 1) % w) + 1]]
\* One pixel of index x in format f (unsigned bytes); indices beyond the palette give zeros.
Expand(pt, pal, x, f) ==
    LET e == PalEntry(pt, pal, x) IN
    IF ~Exact(x) THEN [i \in 1..Bpp(f) |-> -9]
    ELSE IF f = IL_ALPHA /\ pt \notin {IL_PAL_RGBA32, IL_PAL_BGRA32} THEN <<255>>
    ELSE IF x >= PalLen(pt, pal) THEN [i \in 1..Bpp(f) |-> 0]
    ELSE CASE f = IL_RGB -> <<e[1], e[2], e[3]>> [] f = IL_BGR -> <<e[3], e[2], e[1]>> [] f = IL_RGBA -> e
           [] f = IL_BGRA -> <<e[3], e[2], e[1], e[4]>> [] f = IL_ALPHA -> <<e[4]>>
           [] f = IL_LUMINANCE -> <<Lum8(e[1], e[2], e[3])>> [] f = IL_LUMINANCE_ALPHA -> <<Lum8(e[1], e[2], e[3]), e[4]>>
ExpandAll(d, pt, pal, f) ==
    IF ~Known(d) \/ ~Known(pal) THEN Wild
    ELSE LET w == Bpp(f) E == [x \in {d[i] : i \in 1..Len(d)} |-> Expand(pt, pal, x, f)]
         IN [i \in 1..(Len(d) * w) |-> E[d[(i - 1) \div w + 1]][((i - 1) % w) + 1]]

(* -------------------------------------------------- buffers and images -- *)
HasPal(pt) == PalBpp(pt) > 0 \/ pt = -9          \* (-9: some layout)
CanConv(f1, t1, f2, t2, pt) ==
    /\ Bpc(t2) > 0 /\ Bpp(f2) > 0
    /\ f1 = IL_COLOUR_INDEX => Bpc(t1) = 1
    /\ f1 = IL_COLOUR_INDEX /\ f2 # IL_COLOUR_INDEX => HasPal(pt)
    /\ f2 = IL_COLOUR_INDEX => f1 = IL_COLOUR_INDEX
    /\ ~(f1 = IL_ALPHA /\ f2 = IL_LUMINANCE)
ConvBuf(b, f1, t1, f2, t2, pt, pal) ==
    IF f1 = f2 THEN TypeConv(b, t1, t2)
    ELSE IF f1 = IL_COLOUR_INDEX THEN TypeConv([dat |-> ExpandAll(b.dat, pt, pal, f2), fl |-> Wild], IL_UNSIGNED_BYTE, t2)
    ELSE FormatConv(TypeConv(b, t1, t2), t2, f1, f2)
Buf(n) == [dat |-> n.dat, fl |-> n.fl]
GreyPal == [i \in 1..768 |-> (i - 1) \div 3]

\* Reducing to a palette: when there are few, clearly different colours, every pixel keeps its colour.
FewColours == 8
Reduced(s, n) ==
    LET b == IF Size(n) > 400 THEN [dat |-> Wild, fl |-> Wild] ELSE ConvBuf(Buf(n), n.f, n.t, IL_RGB, IL_UNSIGNED_BYTE, n.pt, n.pal)
        d == b.dat
        px(i) == <<d[3 * i - 2], d[3 * i - 1], d[3 * i]>>
        C == {px(i) : i \in 1..Count(n)}
    IN IF s.st[IL_QUANTIZATION_MODE] # IL_WU_QUANT \/ ~Known(d) \/ (\E i \in 1..Len(d) : ~Exact(d[i])) THEN <<-7>>
       ELSE IF Cardinality(C) > Min2(FewColours, s.st[IL_MAX_QUANT_INDICES]) THEN <<-7>>
       ELSE IF \E c1, c2 \in C : c1 # c2 /\ Abs(c1[1] - c2[1]) + Abs(c1[2] - c2[2]) + Abs(c1[3] - c2[3]) < 48 THEN <<-7>>
       ELSE <<-7>> \o d
\* [ok, n]: one image in another format and type.
ConvImage(s, n, f, t) ==
    LET no == [ok |-> FALSE, n |-> n] IN
    IF Bpc(t) = 0 \/ (f = IL_COLOUR_INDEX /\ Bpc(t) # 1) \/ (n.f = IL_COLOUR_INDEX /\ Bpc(n.t) # 1) \/ Bpp(f) = 0 THEN no
    ELSE IF n.f = IL_COLOUR_INDEX THEN
        IF ~HasPal(n.pt) \/ n.pal = <<>> THEN no
        ELSE IF f = IL_COLOUR_INDEX THEN [ok |-> TRUE, n |-> [n EXCEPT !.t = t]]
        ELSE LET b == IF IsShow(n.dat) /\ f = IL_ALPHA THEN [dat |-> Wild, fl |-> Wild]
                      ELSE IF IsShow(n.dat) /\ Len(n.dat) > 1 THEN ConvBuf([dat |-> Tail(n.dat), fl |-> Wild], IL_RGB, IL_UNSIGNED_BYTE, f, t, IL_PAL_NONE, <<>>)
                      ELSE ConvBuf(Buf(n), n.f, n.t, f, t, n.pt, n.pal)
             IN [ok |-> TRUE, n |-> [n EXCEPT !.f = f, !.t = t, !.dat = b.dat, !.fl = b.fl, !.pt = IL_PAL_NONE, !.pal = <<>>]]
    ELSE IF f = IL_COLOUR_INDEX THEN
        IF n.f = IL_LUMINANCE
        THEN LET b == TypeConv(Buf(n), n.t, t)
             IN [ok |-> TRUE, n |-> [n EXCEPT !.f = f, !.t = t, !.dat = b.dat, !.fl = Wild, !.pt = IL_PAL_RGB24, !.pal = GreyPal]]
        ELSE [ok |-> TRUE, n |-> [n EXCEPT !.f = f, !.t = t, !.dat = Reduced(s, n), !.fl = Wild, !.pt = -9, !.pal = Wild]]
    ELSE IF ~CanConv(n.f, n.t, f, t, n.pt) THEN no
    ELSE LET b == ConvBuf(Buf(n), n.f, n.t, f, t, n.pt, n.pal)
         IN [ok |-> TRUE, n |-> [n EXCEPT !.f = f, !.t = t, !.dat = b.dat, !.fl = b.fl]]

\* The image and the images chained after it; those before the first failure are converted.
RECURSIVE ConvChain(_, _, _, _)
ConvChain(s, n, f, t) ==
    LET c == ConvImage(s, n, f, t) IN
    IF ~c.ok THEN c
    ELSE IF c.n.N = <<>> THEN c
    ELSE LET r == ConvChain(s, c.n.N[1], f, t) IN [ok |-> r.ok, n |-> [c.n EXCEPT !.N = <<r.n>>]]

\* Colours equal to the key colour become transparent (8-bit three-channel images).
KeyByte(v) == IF (v * 255) % 256 = 0 THEN (v * 255) \div 256 ELSE -5
KeyAlpha(s, n) ==
    LET k == [i \in 1..3 |-> s.key[i]]
        q == IF n.f = IL_BGR THEN <<k[3], k[2], k[1]>> ELSE k
        f4 == IF n.f = IL_BGR THEN IL_BGRA ELSE IL_RGBA
    IN [n EXCEPT !.f = f4, !.fl = Wild,
          !.dat = IF ~Known(n.dat) \/ Bpc(n.t) # 1 THEN Wild
                  ELSE [i \in 1..(Count(n) * 4) |->
                          LET p == ((i - 1) \div 4) * 3 c == (i - 1) % 4 IN
                          IF c < 3 THEN n.dat[p + c + 1]
                          ELSE IF \A j \in 1..3 : n.dat[p + j] = KeyByte(q[j]) THEN 0 ELSE 255]]
Lost(n) == [n EXCEPT !.f = -9, !.t = -9, !.pt = -9, !.pal = Wild, !.dat = Wild, !.fl = Wild, !.N = WildSub]
Convert(s, f, t) ==
    LET n == Cur(s)
        keyed == s.st[IL_USE_KEY_COLOUR] = 1
        can == keyed /\ n.f \in {IL_RGB, IL_BGR}
        n1 == IF can THEN KeyAlpha(s, n) ELSE n
        r == ConvChain(s, n1, f, t)
        fast == t = n.t /\ n.N = <<>> /\ {f, n.f} \in {{IL_RGB, IL_BGR}, {IL_RGBA, IL_BGRA}}
    IN IF n.f = -9 THEN Res(SetCur(s, Lost(n)), -999, Maybe)
       ELSE IF f = n.f /\ t = n.t THEN Same(s, 1)
       ELSE IF fast THEN Same(SetCur(s, ConvImage(s, n, f, t).n), 1)
       ELSE IF keyed /\ n.f = IL_COLOUR_INDEX THEN Res(SetCur(s, Lost(n)), -999, Maybe)
       ELSE Res(SetCur(s, r.n), B(r.ok), IF ~r.ok THEN Some ELSE IF keyed /\ ~can THEN Some ELSE None)

ConvertPal(s, q) ==
    LET n == Cur(s) IN
    IF n.pt = IL_PAL_NONE \/ n.pal = <<>> \/ PalBpp(q) = 0 THEN Fail(s)
    ELSE Same(SetCur(s, [n EXCEPT !.pt = q, !.pal = PalConv(n.pt, n.pal, q)]), 1)

ConvOps == {"Convert", "ConvertPal", "KeyColour"}
DoConv(s, c) ==
    CASE c.op = "Convert" -> Convert(s, c.a[1], c.a[2])
      [] c.op = "ConvertPal" -> ConvertPal(s, c.a[1])
      [] c.op = "KeyColour" -> Res([s EXCEPT !.key = c.a], -999, None)
===============================================================================
