-------------------------------- MODULE ILUtil --------------------------------
(* The image-utility layer: geometric edits, per-pixel edits, regions,        *)
(* scaling and mipmaps, counting and comparing.                               *)
EXTENDS ILTool

(* ------------------------------------------------------------- geometry -- *)
\* Image m put in the place of n: everything but origin and palette starts anew.
Remade(n, m) == [NewNode EXCEPT !.w = m.w, !.h = m.h, !.d = m.d, !.f = m.f, !.t = m.t, !.o = n.o, !.pt = m.pt, !.pal = m.pal, !.dat = m.dat, !.fl = m.fl]
Mirrored(n) == LET src(x, y, z) == (z * n.h + y) * n.w + n.w - 1 - x IN Gather(n, n.w, n.h, n.d, src, Wild, Wild)
CropNode(n, xo, yo, zo, w, h, d) == LET src(x, y, z) == ((z + zo) * n.h + y + yo) * n.w + x + xo IN Gather(n, w, h, d, src, Wild, Wild)
Crop(s, xo, yo, zo, w0, h0, d0) ==
    LET n == Cur(s)
        flat == n.d = 1 /\ zo \in {0, 1}
        w == Max2(1, w0) h == Max2(1, h0)
        d == IF flat THEN 1 ELSE Max2(1, d0)
        z == IF flat THEN 0 ELSE zo
        in(o, e, size) == o >= 0 /\ e >= 0 /\ e <= size /\ o <= size - e
    IN IF ~(in(xo, w, n.w) /\ in(yo, h, n.h) /\ in(z, d, n.d)) \/ w0 < 0 \/ h0 < 0 \/ (~flat /\ d0 < 0) THEN Fail(s)
       ELSE Same(SetCur(s, Remade(n, CropNode(n, xo, yo, z, w, h, d))), 1)

\* First palette entry closest to a clear colour that bytes represent exactly; -9 where it is not.
ClearIndex(s, n) ==
    LET c == ClrPix(s, IL_RGB, IL_UNSIGNED_BYTE)
        D == [i \in 0..(PalLen(n.pt, n.pal) - 1) |-> LET e == PalEntry(n.pt, n.pal, i)
                IN (e[1] - c[1]) * (e[1] - c[1]) + (e[2] - c[2]) * (e[2] - c[2]) + (e[3] - c[3]) * (e[3] - c[3])]
    IN IF PalBpp(n.pt) = 0 \/ ~Known(n.pal) \/ n.pal = <<>> THEN -9
       ELSE IF \E k \in 1..3 : ~Exact(c[k]) THEN -9
       ELSE IF \E i \in 1..Len(n.pal) : ~Exact(n.pal[i]) THEN -9
       ELSE CHOOSE i \in DOMAIN D : i < 256 /\ \A j \in DOMAIN D : j < 256 => (D[i] < D[j] \/ (D[i] = D[j] /\ i <= j))
EnlargeCanvas(s, w, h, d) ==
    LET n == Cur(s)
        p == s.ilu.plc
        low == n.o = IL_ORIGIN_LOWER_LEFT
        ax == CASE p \in {ILU_LOWER_LEFT, ILU_UPPER_LEFT} -> 0 [] p = ILU_CENTER -> (w - n.w) \div 2 [] OTHER -> w - n.w
        ay == CASE p = ILU_CENTER -> (h - n.h) \div 2
                [] p \in {ILU_LOWER_LEFT, ILU_LOWER_RIGHT} -> IF low THEN 0 ELSE h - n.h
                [] OTHER -> IF low THEN h - n.h ELSE 0
        src(x, y, z) == IF x >= ax /\ x < ax + n.w /\ y >= ay /\ y < ay + n.h /\ z < n.d THEN (z * n.h + y - ay) * n.w + x - ax ELSE -1
        fill == IF n.f = IL_COLOUR_INDEX THEN <<ClearIndex(s, n)>> ELSE ClrPix(s, n.f, n.t)
    IN IF w < n.w \/ h < n.h \/ d < n.d \/ Huge(w, h, d, Bpp(n.f) * Bpc(n.t)) THEN Fail(s)
       ELSE Same(SetCur(s, Remade(n, IF Huge(w, h, d, 10000) THEN [n EXCEPT !.w = w, !.h = h, !.d = d, !.dat = Wild, !.fl = Wild]
                                     ELSE Gather([n EXCEPT !.fl = IF n.t \in FloatTypes THEN FlOf(n.dat, n.fl, n.t) ELSE Wild], w, h, d, src, fill, ClrChan(s, n.f)))), 1)
\* A quarter turn takes rows to columns; q of them.
Turn(n, q) ==
    LET one(x, y, z) == (z * n.h + n.h - 1 - x) * n.w + y
        two(x, y, z) == (z * n.h + n.h - 1 - y) * n.w + n.w - 1 - x
        three(x, y, z) == (z * n.h + x) * n.w + n.w - 1 - y
    IN CASE q = 0 -> n [] q = 1 -> Gather(n, n.h, n.w, n.d, one, Wild, Wild)
         [] q = 2 -> Gather(n, n.w, n.h, n.d, two, Wild, Wild) [] q = 3 -> Gather(n, n.h, n.w, n.d, three, Wild, Wild)
Rotate(s, angle) ==
    LET n == Cur(s) IN
    IF angle % 90 = 0 THEN Same(SetCur(s, Remade(n, Turn(n, (angle \div 90) % 4))), 1)
    ELSE IF n.f = IL_COLOUR_INDEX /\ (~HasPal(n.pt) \/ Bpc(n.t) # 1) THEN Fail(s)
    ELSE Same(SetCur(s, Remade(n, [n EXCEPT !.w = -9, !.h = -9, !.dat = Wild, !.fl = Wild, !.pal = Wild, !.pt = IF n.f = IL_COLOUR_INDEX THEN -9 ELSE @])), 1)

(* -------------------------------------------------------- per-pixel edits -- *)
\* n with each byte changed by rule g(byte, channel from 1) where that is known
EachByte(n, g(_, _)) ==
    LET md == Bytes(n) ch == Bpp(n.f) IN
    [n EXCEPT !.fl = Wild, !.dat = IF md = Wild THEN Wild ELSE [i \in 1..Len(md) |-> IF Exact(md[i]) THEN g(md[i], ((i - 1) % ch) + 1) ELSE -9]]
EachEntry(n, g(_, _)) ==
    LET ch == PalBpp(n.pt) IN
    [n EXCEPT !.pal = IF ch = 0 \/ ~Known(n.pal) THEN (IF n.pal = <<>> THEN <<>> ELSE Wild) ELSE [i \in 1..Len(n.pal) |-> IF Exact(n.pal[i]) THEN g(n.pal[i], ((i - 1) % ch) + 1) ELSE -9]]
FlVals(n) == IF n.t \in FloatTypes THEN FlOf(n.dat, n.fl, n.t) ELSE Wild
Negate(v) == IF v = -99999 THEN -99999 ELSE 65535 - v

Quot(v) == IF v < 0 THEN -((-v) \div 256) ELSE v \div 256
\* The active region: corners of a polygon, in pixels or (frac) in 1/256ths of the image.
RegPts(s, n) == IF ~s.reg.frac THEN s.reg.p ELSE [i \in 1..Len(s.reg.p) |-> << Quot(n.w * s.reg.p[i][1]), Quot(n.h * s.reg.p[i][2]) >>]
\* Where pixel (x, y) is: 1 inside of the region, 0 outside of it, -1 on its border, where the rounding decides
\* (an upright edge needs no rounding: the pixels on it are inside to its right, so a left edge is inside and a right edge outside).
InPoly(R, x, y) ==
    LET N == Len(R)
        E == {i \in 1..N : LET a == R[i] b == R[(i % N) + 1] IN (a[2] < y /\ y < b[2]) \/ (b[2] < y /\ y < a[2])}
        lo(i) == IF R[i][2] < R[(i % N) + 1][2] THEN R[i] ELSE R[(i % N) + 1]
        up(i) == IF R[i][2] < R[(i % N) + 1][2] THEN R[(i % N) + 1] ELSE R[i]
        dy(i) == up(i)[2] - lo(i)[2]
        off(i) == (x - lo(i)[1]) * dy(i) - (y - lo(i)[2]) * (up(i)[1] - lo(i)[1])      \* how far right of the edge, times dy
    IN IF \A i \in 1..N : R[i][1] > x + 1 THEN 0
       ELSE IF \A i \in 1..N : R[i][1] < x THEN 0
       ELSE IF (\A i \in 1..N : R[i][2] > y) \/ (\A i \in 1..N : R[i][2] < y) THEN 0
       ELSE IF \E i \in 1..N : R[i][2] = y THEN -1
       ELSE IF \E i \in E : R[i][1] # R[(i % N) + 1][1] /\ off(i) <= dy(i) /\ off(i) >= -dy(i) THEN -1
       ELSE Cardinality({i \in E : off(i) >= 0}) % 2
InRegion(s, n, x, y) == IF s.reg.p = <<>> THEN 1 ELSE InPoly(RegPts(s, n), x, y)
\* A region that reaches beyond the image is not applied.
RegionOk(s, n) == LET R == RegPts(s, n) IN \A i \in 1..Len(R) : R[i][1] >= 0 /\ R[i][2] >= 0 /\ R[i][1] < n.w /\ R[i][2] < n.h
Negative(s) ==
    LET n == Cur(s)
        neg(b, k) == 255 - b
        all == EachByte(n, neg)
        fls == FlVals(n)
        IN_ == [q \in 0..(Count(n) - 1) |-> IF RegionOk(s, n) THEN InRegion(s, n, q % n.w, (q \div n.w) % n.h) ELSE -1]
        u == Bpp(n.f) * Bpc(n.t) ch == Bpp(n.f)
        md == Bytes(n)
    IN IF n.f = IL_COLOUR_INDEX
       THEN IF ~HasPal(n.pt) \/ n.pal = <<>> THEN Fail(s) ELSE Same(SetCur(s, EachEntry(n, neg)), 1)
       ELSE IF n.t \in FloatTypes
       THEN Same(SetCur(s, [n EXCEPT !.dat = Wild, !.fl = IF fls = Wild THEN Wild
                  ELSE [i \in 1..Len(fls) |-> LET r == IN_[(i - 1) \div ch] IN IF r = 1 THEN Negate(fls[i]) ELSE IF r = 0 THEN fls[i] ELSE -99999]]), 1)
       ELSE Same(SetCur(s, [n EXCEPT !.fl = Wild, !.dat = IF md = Wild THEN Wild
                  ELSE [i \in 1..Len(md) |-> LET r == IN_[(i - 1) \div u] IN IF r = 1 THEN all.dat[i] ELSE IF r = 0 THEN md[i] ELSE -9]]), 1)
InvertAlpha(s) ==
    LET n == Cur(s)
        u == Bpc(n.t) ch == Bpp(n.f) md == Bytes(n) fls == FlVals(n)
    IN IF n.f \notin {IL_RGBA, IL_BGRA, IL_LUMINANCE_ALPHA} THEN Fail(s)
       ELSE IF n.t \in FloatTypes
       THEN Same(SetCur(s, [n EXCEPT !.dat = Wild, !.fl = IF fls = Wild THEN Wild ELSE [i \in 1..Len(fls) |-> IF i % ch = 0 THEN Negate(fls[i]) ELSE fls[i]]]), 1)
       ELSE Same(SetCur(s, [n EXCEPT !.fl = Wild, !.dat = IF md = Wild THEN Wild
                  ELSE [i \in 1..Len(md) |-> IF ((i - 1) \div u) % ch = ch - 1 THEN (IF Exact(md[i]) THEN 255 - md[i] ELSE -9) ELSE md[i]]]), 1)
Swap(s) ==
    LET n == Cur(s) IN
    IF n.f = IL_COLOUR_INDEX
    THEN CASE n.pt = IL_PAL_RGB24 -> ConvertPal(s, IL_PAL_BGR24) [] n.pt = IL_PAL_BGR24 -> ConvertPal(s, IL_PAL_RGB24)
           [] n.pt = IL_PAL_RGB32 -> ConvertPal(s, IL_PAL_BGR32) [] n.pt = IL_PAL_BGR32 -> ConvertPal(s, IL_PAL_RGB32)
           [] n.pt = IL_PAL_RGBA32 -> ConvertPal(s, IL_PAL_BGRA32) [] n.pt = IL_PAL_BGRA32 -> ConvertPal(s, IL_PAL_RGBA32)
           [] n.pt = -9 -> Res(SetCur(s, [n EXCEPT !.pal = Wild]), -999, Maybe)
           [] OTHER -> Fail(s)
    ELSE CASE n.f = IL_RGB -> Convert(s, IL_BGR, n.t) [] n.f = IL_BGR -> Convert(s, IL_RGB, n.t)
           [] n.f = IL_RGBA -> Convert(s, IL_BGRA, n.t) [] n.f = IL_BGRA -> Convert(s, IL_RGBA, n.t)
           [] OTHER -> Fail(s)
\* Pixels whose distance from the clear colour, cut to an integer, is at most the tolerance take the new colour.
Replace(s, r, g, b, tol) ==
    LET n == Cur(s)
        T == IF tol > 256 \/ tol < -256 THEN 255 ELSE (Abs(tol) * 255) \div 256
        c == ClrPix(s, IL_RGB, IL_UNSIGNED_BYTE)
        pos == RgbPos(n.f)
        ch == Bpp(n.f)
        md == Bytes(n)
        new == <<r, g, b>>
        sq(v) == v * v
        near(p) == LET v(k) == md[p * ch + pos[k]] IN
                   IF \E k \in 1..3 : ~Exact(v(k)) \/ ~Exact(c[k]) THEN -1
                   ELSE B(sq(v(1) - c[1]) + sq(v(2) - c[2]) + sq(v(3) - c[3]) < sq(T + 1))
        N == [p \in 0..(Count(n) - 1) |-> near(p)]
    IN IF Bpc(n.t) > 1 \/ n.f = IL_COLOUR_INDEX THEN Fail(s)
       ELSE IF n.f \in {IL_LUMINANCE, IL_LUMINANCE_ALPHA} THEN Same(SetCur(s, [n EXCEPT !.dat = Wild]), 1)
       ELSE IF n.f = IL_ALPHA THEN Same(s, 1)
       ELSE IF md = Wild THEN Same(SetCur(s, [n EXCEPT !.dat = Wild]), 1)
       ELSE Same(SetCur(s, [n EXCEPT !.dat = [i \in 1..Len(md) |->
                LET p == (i - 1) \div ch k == ((i - 1) % ch) + 1 IN
                IF k = 4 \/ N[p] = 0 THEN md[i] ELSE IF N[p] = -1 THEN -9 ELSE new[CHOOSE j \in 1..3 : pos[j] = k]]]), 1)
\* v * k/256, cut towards zero and clamped
Scaled8(v, k) == IF k < 0 THEN 0 ELSE IF k > 65536 THEN (IF v = 0 THEN 0 ELSE 255) ELSE Min2(255, (v * k) \div 256)
ScaleAlpha(s, k) ==
    LET n == Cur(s) g(b, c) == IF c = 4 THEN Scaled8(b, k) ELSE b IN
    IF n.f = IL_COLOUR_INDEX THEN (IF n.pt \in {IL_PAL_RGBA32, IL_PAL_BGRA32} THEN Same(SetCur(s, EachEntry(n, g)), 1) ELSE IF n.pt = -9 THEN Res(SetCur(s, [n EXCEPT !.pal = Wild]), -999, Maybe) ELSE Fail(s))
    ELSE IF Bpc(n.t) # 1 \/ n.f \notin {IL_RGBA, IL_BGRA} THEN Fail(s)
    ELSE Same(SetCur(s, EachByte(n, g)), 1)
ScaleColours(s, kr, kg, kb) ==
    LET n == Cur(s)
        by(bgr, c) == IF c = 4 THEN 256 ELSE IF bgr THEN <<kb, kg, kr>>[c] ELSE <<kr, kg, kb>>[c]
        gp(b, c) == Scaled8(b, by(n.pt \in {IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32}, c))
        gc(b, c) == Scaled8(b, by(n.f \in {IL_BGR, IL_BGRA}, c))
        gl(b, c) == IF c = 1 THEN Scaled8(b, kr) ELSE b
    IN IF n.f = IL_COLOUR_INDEX THEN (IF n.pt = -9 THEN Res(SetCur(s, [n EXCEPT !.pal = Wild]), -999, Maybe) ELSE IF PalBpp(n.pt) = 0 THEN Fail(s) ELSE Same(SetCur(s, EachEntry(n, gp)), 1))
       ELSE IF Bpc(n.t) # 1 \/ n.f = IL_ALPHA THEN Fail(s)
       ELSE IF n.f \in {IL_LUMINANCE, IL_LUMINANCE_ALPHA} THEN Same(SetCur(s, EachByte(n, gl)), 1)
       ELSE Same(SetCur(s, EachByte(n, gc)), 1)
\* 255 * (v / 255) ^ (1 / gamma), rounded: for gamma 1, 2 and 1/2 (in 1/256ths)
Gamma8(v, k) == CASE k = 256 -> v [] k = 512 -> (CHOOSE r \in 0..255 : r * (r + 1) >= 255 * v /\ (r = 0 \/ (r - 1) * r < 255 * v))
                  [] k = 128 -> (2 * v * v + 255) \div 510 [] OTHER -> -9
Gamma(s, k) ==
    LET n == Cur(s) T == [v \in 0..255 |-> Gamma8(v, k)] g(b, c) == T[b] IN
    IF k <= 0 THEN Fail(s)
    ELSE IF n.f = IL_COLOUR_INDEX THEN Same(SetCur(s, EachEntry(n, g)), 1)
    ELSE IF k = 256 THEN Same(SetCur(s, [n EXCEPT !.dat = IF n.t \in FloatTypes THEN Wild ELSE @, !.fl = FlVals(n)]), 1)
    ELSE IF Bpc(n.t) = 1 THEN Same(SetCur(s, EachByte(n, g)), 1)
    ELSE Same(SetCur(s, [n EXCEPT !.dat = Wild, !.fl = Wild]), 1)
Contrast8(v, k) == LET x == (256 - k) * 127 + k * v IN IF x < 0 THEN 0 ELSE Min2(255, x \div 256)
Contrast(s, k) ==
    LET n == Cur(s) g(b, c) == Contrast8(b, k) IN
    IF n.f = IL_COLOUR_INDEX THEN Same(SetCur(s, EachEntry(n, g)), 1)
    ELSE IF Bpc(n.t) # 1 THEN Fail(s)
    ELSE Same(SetCur(s, EachByte(n, g)), 1)
\* Saturation: every pixel is mixed with its own grey; here: equal channels stay, and 1 changes nothing.
Saturate(s, k) ==
    LET n == Cur(s) IN
    IF Bpc(n.t) # 1 \/ n.f \notin {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA} THEN Fail(s)
    ELSE LET md == Bytes(n) ch == Bpp(n.f) IN
         Same(SetCur(s, [n EXCEPT !.dat = IF md = Wild THEN Wild ELSE [i \in 1..Len(md) |-> IF i % ch = 0 /\ ch = 4 THEN md[i] ELSE IF k = 256 /\ Exact(md[i]) THEN Rng(Max2(md[i] - 1, 0), md[i]) ELSE -9]]), 1)
(* -------------------------------------------------- counting, comparing -- *)
AllExact(d) == Known(d) /\ \A i \in 1..Len(d) : Exact(d[i])
Colours(s) ==
    LET n == Cur(s) u == Bpp(n.f) * Bpc(n.t)
        d == n.dat
    IN IF ~AllExact(d) THEN Same(s, -999)
       ELSE Same(s, Cardinality({SubSeq(d, p * u + 1, p * u + u) : p \in 0..(Count(n) - 1)}))
Certain(x) == AllExact(x) \/ (IsHash(x)) \/ x = <<>>
Compare(s, name) ==
    LET n == Cur(s) m == s.imgs[name]
        head == <<n.w, n.h, n.d, n.f, n.t, n.o>> = <<m.w, m.h, m.d, m.f, m.t, m.o>>
        pals == n.f # IL_COLOUR_INDEX \/ (n.pt = m.pt /\ n.pal = m.pal)
        sure == Certain(n.dat) /\ Certain(m.dat) /\ (n.f # IL_COLOUR_INDEX \/ (n.pt # -9 /\ m.pt # -9 /\ Certain(n.pal) /\ Certain(m.pal)))
    IN IF ~IsName(s, name) THEN Fail(s)
       ELSE IF ~head THEN Same(s, 0)
       ELSE IF name = s.cur /\ s.path = <<>> THEN Same(s, 1)
       ELSE IF sure /\ IsHash(n.dat) = IsHash(m.dat) THEN Same(s, B(pals /\ n.dat = m.dat))
       ELSE Same(s, -999)

(* ------------------------------------------------------ scaling, mipmaps -- *)
Advanced == {ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL}
\* all pixels alike
Uniform(n) == LET u == Bpp(n.f) * Bpc(n.t) IN Known(n.dat) /\ \A i \in 1..Len(n.dat) : Exact(n.dat[i]) /\ n.dat[i] = n.dat[((i - 1) % u) + 1]
\* x/ratio where the ratio, kept as a single precision number, may fall just short of an integer
Shaky(x, a, b) == (x * a) % b = 0 /\ x > 0 /\ (b * 1024) % a # 0
Nearest(n, w, h, d) ==
    LET flat == Uniform(n)
        src(x, y, z) == LET X == (x * n.w) \div w Y == (y * n.h) \div h Z == (z * n.d) \div d IN
                        IF ~flat /\ (Shaky(x, n.w, w) \/ Shaky(y, n.h, h) \/ Shaky(z, n.d, d)) THEN -1 ELSE (Z * n.h + Y) * n.w + X
    IN Gather([n EXCEPT !.fl = Wild], w, h, d, src, [i \in 1..(Bpp(n.f) * Bpc(n.t)) |-> -9], Wild)
\* bytes, interpolated between the four pixels around a point (rows: only between two of a row, weighted along a cosine)
Between(n, w, h, rows) ==
    LET ch == Bpp(n.f) md == n.dat
        val(X, Y, k) == md[(Y * n.w + X) * ch + k]
    IN [n EXCEPT !.w = w, !.h = h, !.fl = Wild, !.dat =
         IF ~AllExact(md) \/ n.t # IL_UNSIGNED_BYTE THEN Wild
         ELSE [i \in 1..(w * h * ch) |->
                LET p == (i - 1) \div ch k == ((i - 1) % ch) + 1 x == p % w y == p \div w
                    X1 == (x * n.w) \div w X2 == Min2(X1 + 1, n.w - 1) fx == (x * n.w) % w
                    Y1 == (y * n.h) \div h Y2 == Min2(Y1 + 1, n.h - 1) fy == (y * n.h) % h
                    a == val(X1, Y1, k) b == val(X2, Y1, k) c == val(X1, Y2, k) e == val(X2, Y2, k)
                    v == ((w - fx) * (h - fy) * a + fx * (h - fy) * b + (w - fx) * fy * c + fx * fy * e)
                IN IF rows THEN IF Shaky(y, n.h, h) THEN -9 ELSE Rng(Min2(a, b), Max2(a, b)) ELSE Rng(Max2(0, v \div (w * h) - 1), Min2(255, v \div (w * h) + 1))]]
\* One image in other dimensions.
Rescaled(s, n, w, h, d) ==
    LET flat == n.d = 1 /\ d = 1
        near == s.ilu.flt = ILU_NEAREST \/ ~flat
        same(x, y, z) == 0
        open == [n EXCEPT !.w = w, !.h = h, !.d = d, !.dat = Wild, !.fl = Wild]
        one == Gather([n EXCEPT !.fl = Wild], w, h, d, same, Wild, Wild)
    IN IF Huge(w, h, d, 100000) THEN open
       ELSE IF n.f = IL_COLOUR_INDEX /\ ~near
            THEN [open EXCEPT !.pal = Wild, !.dat = IF Uniform(n) /\ Known(n.pal) /\ n.dat[1] < PalLen(n.pt, n.pal)
                       THEN LET e == PalEntry(n.pt, n.pal, n.dat[1]) IN <<-7>> \o [i \in 1..(w * h * 3) |-> e[((i - 1) % 3) + 1]] ELSE Wild]
       ELSE IF ~Known(n.dat) THEN open
       ELSE IF near THEN Nearest(n, w, h, d)
       ELSE IF Uniform(n) THEN (IF n.t = IL_DOUBLE THEN [one EXCEPT !.fl = FlOf(one.dat, Wild, n.t), !.dat = Wild] ELSE one)
       ELSE IF n.t = IL_UNSIGNED_BYTE /\ s.ilu.flt \notin Advanced THEN Between(n, w, h, s.ilu.flt = ILU_LINEAR)
       ELSE open
CanScale(s, n, w, h, d) == ~(n.f = IL_COLOUR_INDEX /\ s.ilu.flt # ILU_NEAREST /\ n.d = 1 /\ d = 1 /\ (~HasPal(n.pt) \/ n.pal = <<>> \/ Bpc(n.t) # 1))
Scale(s, w0, h0, d0) ==
    LET n == Cur(s)
        w == IF w0 = 0 THEN 1 ELSE w0 h == IF h0 = 0 THEN 1 ELSE h0 d == IF d0 = 0 THEN 1 ELSE d0
        adv == s.ilu.flt \in Advanced /\ (n.w < w \/ n.h < h)
    IN IF n.w = w0 /\ n.h = h0 /\ n.d = d0 THEN Same(s, 1)
       ELSE IF Huge(w, h, d, Bpp(n.f) * Bpc(n.t)) THEN Fail(s)
       ELSE IF adv /\ (n.t # IL_UNSIGNED_BYTE \/ n.f = IL_COLOUR_INDEX \/ n.d > 1 \/ d > 1) THEN Fail(s)
       ELSE IF ~CanScale(s, n, w, h, d) THEN Fail(s)
       ELSE Same(SetCur(s, [Remade(n, IF adv /\ ~Uniform(n) THEN [n EXCEPT !.w = w, !.h = h, !.dat = Wild] ELSE Rescaled(s, n, w, h, d))
              EXCEPT !.du = -9, !.pt = IF n.f = IL_COLOUR_INDEX THEN @ ELSE IL_PAL_NONE, !.pal = IF n.f = IL_COLOUR_INDEX THEN @ ELSE <<>>]), 1)
Share(v, k) == IF k > 65536 THEN v * (k \div 256) ELSE (v * k) \div 256
EnlargeImage(s, x, y, z) ==
    LET n == Cur(s) IN
    IF x <= 0 \/ y <= 0 \/ z <= 0 THEN Fail(s) ELSE Scale(s, Share(n.w, x), Share(n.h, y), Share(n.d, z))
\* Each level halves the one before.
RECURSIVE Levels(_, _)
Levels(s, n) ==
    IF n.w = 1 /\ n.h = 1 /\ n.d = 1 THEN <<>>
    ELSE LET l == [Remade(n, Rescaled(s, n, Max2(1, n.w \div 2), Max2(1, n.h \div 2), Max2(1, n.d \div 2))) EXCEPT !.du = -9, !.ox = -9, !.oy = -9, !.cb = -9]
         IN << [l EXCEPT !.M = Levels(s, l)] >>
Mips(s) ==
    LET n == Cur(s) IN
    IF n.w = 1 /\ n.h = 1 /\ n.d = 1 THEN Same(SetCur(s, [n EXCEPT !.M = <<>>]), 1)
    ELSE IF ~CanScale(s, n, 1, 1, 1) THEN Res(SetCur(s, [n EXCEPT !.M = WildSub]), -999, Maybe)
    ELSE Same(SetCur(s, [n EXCEPT !.M = Levels(s, n)]), 1)

NoRegion == [frac |-> FALSE, p |-> <<>>]
Region(s, a, frac) ==
    IF a = <<>> THEN Res([s EXCEPT !.reg = NoRegion], -999, None)
    ELSE IF Len(a) < 6 THEN Res(s, -999, <<ILU_INVALID_PARAM>>)
    ELSE Res([s EXCEPT !.reg = [frac |-> frac, p |-> [i \in 1..(Len(a) \div 2) |-> <<a[2 * i - 1], a[2 * i]>>]]], -999, None)

UtilOps == {"iluFlip", "iluMirror", "iluCrop", "iluEnlargeCanvas", "iluRotate", "iluNegative", "iluInvertAlpha", "iluSwap", "iluReplace",
            "iluScaleAlpha", "iluScaleColours", "iluGamma", "iluContrast", "iluSaturate1", "iluColours", "iluCompare", "iluScale", "iluEnlargeImage", "iluMips", "iluRegionI", "iluRegionF"}
DoUtil(s, c) ==
    CASE c.op = "iluFlip" -> Same(SetCur(s, FlipRows(Cur(s))), 1)
      [] c.op = "iluMirror" -> Same(SetCur(s, Mirrored(Cur(s))), 1)
      [] c.op = "iluCrop" -> Crop(s, c.a[1], c.a[2], c.a[3], c.a[4], c.a[5], c.a[6])
      [] c.op = "iluEnlargeCanvas" -> EnlargeCanvas(s, c.a[1], c.a[2], c.a[3])
      [] c.op = "iluRotate" -> Rotate(s, c.a[1])
      [] c.op = "iluNegative" -> Negative(s)
      [] c.op = "iluInvertAlpha" -> InvertAlpha(s)
      [] c.op = "iluSwap" -> Swap(s)
      [] c.op = "iluReplace" -> Replace(s, c.a[1], c.a[2], c.a[3], c.a[4])
      [] c.op = "iluScaleAlpha" -> ScaleAlpha(s, c.a[1])
      [] c.op = "iluScaleColours" -> ScaleColours(s, c.a[1], c.a[2], c.a[3])
      [] c.op = "iluGamma" -> Gamma(s, c.a[1])
      [] c.op = "iluContrast" -> Contrast(s, c.a[1])
      [] c.op = "iluSaturate1" -> Saturate(s, c.a[1])
      [] c.op = "iluColours" -> Colours(s)
      [] c.op = "iluCompare" -> Compare(s, c.a[1])
      [] c.op = "iluScale" -> Scale(s, c.a[1], c.a[2], c.a[3])
      [] c.op = "iluEnlargeImage" -> EnlargeImage(s, c.a[1], c.a[2], c.a[3])
      [] c.op = "iluMips" -> Mips(s)
      [] c.op = "iluRegionI" -> Region(s, c.a, FALSE)
      [] c.op = "iluRegionF" -> Region(s, c.a, TRUE)
===============================================================================
