-------------------------------- MODULE ILEdit --------------------------------
(* Contents of images: definition, rectangles of pixels, clearing, blitting,  *)
(* palettes, alpha, registration of attributes.                               *)
EXTENDS ILConv

(* ---------------------------------------------------------- rearranging -- *)
\* n with new dimensions; pixel (x,y,z) comes from pixel src(x,y,z) of n (counted from 0), or is `fill' if that is -1.
\* fill: bytes of one pixel; ffill: its channel values.
Gather(n, w2, h2, d2, src(_, _, _), fill, ffill) ==
    LET ps == Bpp(n.f) * Bpc(n.t)
        b == Bpp(n.f)
        num == w2 * h2 * d2
        S == [q \in 1..num |-> src((q - 1) % w2, ((q - 1) \div w2) % h2, (q - 1) \div (w2 * h2))]
    IN [n EXCEPT !.w = w2, !.h = h2, !.d = d2,
          !.dat = IF ~Known(n.dat) \/ (fill = Wild /\ \E q \in 1..num : S[q] < 0) THEN Wild
                  ELSE [i \in 1..(num * ps) |-> LET q == S[(i - 1) \div ps + 1] k == ((i - 1) % ps) + 1
                                               IN IF q < 0 THEN fill[k] ELSE n.dat[q * ps + k]],
          !.fl = IF n.fl = Wild \/ n.t \notin FloatTypes \/ (ffill = Wild /\ \E q \in 1..num : S[q] < 0) THEN Wild
                 ELSE [i \in 1..(num * b) |-> LET q == S[(i - 1) \div b + 1] k == ((i - 1) % b) + 1
                                             IN IF q < 0 THEN ffill[k] ELSE n.fl[q * b + k]]]
FlipSrc(n, x, y, z) == (z * n.h + n.h - 1 - y) * n.w + x
FlipRows(n) == LET src(x, y, z) == FlipSrc(n, x, y, z) IN Gather(n, n.w, n.h, n.d, src, Wild, Wild)
OtherOrigin(o) == IF o = IL_ORIGIN_LOWER_LEFT THEN IL_ORIGIN_UPPER_LEFT ELSE IL_ORIGIN_LOWER_LEFT
\* The same picture stored the other way up.
FlipStored(n) == [FlipRows(n) EXCEPT !.o = OtherOrigin(n.o)]

(* ------------------------------------------------------------ definition -- *)
Cap == 96 * 1048576          \* larger requests are refused by the driver's allocator
SatMul(a, b) == IF a < 0 \/ b < 0 THEN 2147483647 ELSE IF a = 0 THEN 0 ELSE IF b > 2147483647 \div a THEN 2147483647 ELSE a * b
\* bytes needed exceed 2^31-2 ?
Huge(w, h, d, b) == w < 0 \/ h < 0 \/ d < 0 \/ SatMul(SatMul(SatMul(b, w), h), d) = 2147483647
TexNode(n0, w, h, d, f, t, dat, nod) ==
    [n0 EXCEPT !.w = w, !.h = h, !.d = d, !.f = f, !.t = t,
               !.dat = IF nod > 1 THEN (IF nod = w * h * d * Bpp(f) * Bpc(t) THEN dat ELSE Wild) ELSE IF nod = 1 \/ Len(dat) = 0 THEN Wild ELSE SubSeq(dat, 1, Min2(Len(dat), w * h * d * Bpp(f) * Bpc(t))), !.fl = Wild]
TexImage(s, c, surf) ==
    LET w == IF c.a[1] = 0 THEN 1 ELSE c.a[1]
        h == IF c.a[2] = 0 THEN 1 ELSE c.a[2]
        d == IF c.a[3] = 0 THEN 1 ELSE c.a[3]
        f == c.a[5]
        t == c.a[6]
        n == Cur(s)
        n0 == IF surf THEN [n EXCEPT !.pt = IL_PAL_NONE, !.pal = <<>>, !.du = -9, !.ox = -9, !.oy = -9] ELSE NewNode
    IN IF Bpc(t) = 0 \/ Bpp(f) = 0 \/ Huge(w, h, d, Bpp(f) * Bpc(t)) THEN Fail(s)
       ELSE Same(SetCur(s, TexNode(n0, w, h, d, f, t, c.d, c.nod)), 1)
SetData(s, c) ==
    IF c.nod = 1 THEN Fail(s)
    ELSE Same(SetCur(s, [Cur(s) EXCEPT !.dat = IF c.nod > 1 THEN (IF c.nod = Size(Cur(s)) THEN c.d ELSE Wild) ELSE IF Len(c.d) < Size(Cur(s)) THEN Wild ELSE SubSeq(c.d, 1, Size(Cur(s))), !.fl = Wild]), 1)

(* ------------------------------------------------------------ rectangles -- *)
Turned(s, n) == s.st[IL_ORIGIN_SET] = 1 /\ s.st[IL_ORIGIN_MODE] # n.o
SetPixels(s, c) ==
    LET n == Cur(s)
        X == c.a[1] Y == c.a[2] Z == c.a[3] W == c.a[4] H == c.a[5] D == c.a[6]
        f == c.a[7] t == c.a[8]
        m == IF Turned(s, n) THEN FlipStored(n) ELSE n
        ok == IF f = n.f /\ t = n.t THEN TRUE ELSE CanConv(f, t, n.f, n.t, IL_PAL_NONE)
        src == [dat |-> c.d, fl |-> Wild]
        b == IF f = n.f /\ t = n.t THEN src ELSE ConvBuf(src, f, t, n.f, n.t, IL_PAL_NONE, <<>>)
        ps == Bpp(n.f) * Bpc(n.t)
        ch == Bpp(n.f)
        \* pixel of the data that lands on pixel q (from 0), or -1
        hit == [q \in 0..(Count(n) - 1) |->
                  LET x == (q % n.w) - X y == ((q \div n.w) % n.h) - Y z == q \div (n.w * n.h) - Z
                  IN IF x >= 0 /\ x < W /\ y >= 0 /\ y < H /\ z >= 0 /\ z < D THEN (z * H + y) * W + x ELSE -1]
        bf == IF n.t \in FloatTypes THEN FlOf(b.dat, b.fl, n.t) ELSE Wild
        mf == IF n.t \in FloatTypes THEN FlOf(m.dat, m.fl, n.t) ELSE Wild
        md == Bytes(m)
    IN IF c.nod = 1 THEN Res(s, -999, Some)
       ELSE IF ~ok THEN Res(s, -999, Some)
       ELSE IF W * H * D = 0 THEN Res(s, -999, Maybe)
       ELSE Res(SetCur(s, [m EXCEPT
              !.dat = IF md = Wild THEN Wild
                      ELSE [i \in 1..Len(md) |-> LET q == hit[(i - 1) \div ps] IN
                              IF q < 0 THEN md[i] ELSE IF Known(b.dat) THEN b.dat[q * ps + ((i - 1) % ps) + 1] ELSE -9],
              !.fl = IF bf = Wild \/ mf = Wild THEN Wild
                     ELSE [i \in 1..Len(mf) |-> LET q == hit[(i - 1) \div ch] IN IF q < 0 THEN mf[i] ELSE bf[q * ch + ((i - 1) % ch) + 1]]]), -999, None)
\* What ilCopyPixels stores in the caller's buffer.
CopyPixels(s, c) ==
    LET n == Cur(s)
        X == c.a[1] Y == c.a[2] Z == c.a[3] W == c.a[4] H == c.a[5] D == c.a[6]
        f == c.a[7] t == c.a[8]
        m == IF Turned(s, n) THEN FlipStored(n) ELSE n
        size == W * H * D * Bpp(f) * Bpc(t)
        same == f = n.f /\ t = n.t
        ps == Bpp(n.f) * Bpc(n.t)
        md == Bytes(m)
        from == [q \in 0..(W * H * D - 1) |->
                   LET x == (q % W) + X y == ((q \div W) % H) + Y z == q \div (W * H) + Z
                   IN IF x < n.w /\ y < n.h /\ z < n.d THEN (z * n.h + y) * n.w + x ELSE -1]
        raw == [i \in 1..(W * H * D * ps) |-> LET q == from[(i - 1) \div ps] IN IF q < 0 THEN (IF same THEN 238 ELSE -9) ELSE md[q * ps + ((i - 1) % ps) + 1]]
        cb == ConvBuf([dat |-> raw, fl |-> Wild], n.f, n.t, f, t, n.pt, n.pal)
        out == IF md = Wild THEN Wild ELSE IF same THEN raw ELSE IF t \in FloatTypes THEN Wild ELSE cb.dat
    IN IF size = 0 THEN ResO(s, 0, Wild, None)
       ELSE IF f = IL_COLOUR_INDEX THEN ResO(s, 0, Wild, Some)
       ELSE IF ~same /\ ~CanConv(n.f, n.t, f, t, n.pt) THEN ResO(s, 0, Wild, Some)
       ELSE ResO(s, size, out, None)

(* -------------------------------------------------------------- clearing -- *)
\* clear colour channels in 1/256ths; <<>>: the default (1, .972549, .90588, 0)
Chan256(s, k) == IF s.clr = <<>> THEN -1 ELSE Min2(Max2(s.clr[k], 0), 256)
DefClear == <<65535, 63736, 59367, 0>>     \* in 1/65535ths
Clr16(s, k) == IF s.clr = <<>> THEN DefClear[k] ELSE (Chan256(s, k) * 65535 + 128) \div 256
ClrLum(s) == IF s.clr = <<>> THEN 65535
             ELSE IF Clr16(s, 1) = Clr16(s, 2) /\ Clr16(s, 2) = Clr16(s, 3) THEN Clr16(s, 1)
             ELSE (Clr16(s, 1) * 6969 + Clr16(s, 2) * 23434 + Clr16(s, 3) * 2365) \div 32768
ClrChan(s, f) ==
    LET r == Clr16(s, 1) g == Clr16(s, 2) b == Clr16(s, 3) a == Clr16(s, 4) IN
    CASE f = IL_RGB -> <<r, g, b>> [] f = IL_BGR -> <<b, g, r>> [] f = IL_RGBA -> <<r, g, b, a>> [] f = IL_BGRA -> <<b, g, r, a>>
      [] f = IL_LUMINANCE -> <<ClrLum(s)>> [] f = IL_LUMINANCE_ALPHA -> <<ClrLum(s), a>> [] f = IL_ALPHA -> <<a>> [] OTHER -> <<0>>
\* bytes of one pixel of clear colour
ClrPix(s, f, t) ==
    IF f = IL_COLOUR_INDEX THEN [i \in 1..Bpc(t) |-> 0]
    ELSE LET ch == ClrChan(s, f) u == Bpc(t) IN
         [i \in 1..(Len(ch) * u) |->
            LET v == ch[(i - 1) \div u + 1] k == (i - 1) % u IN
            IF t \in FloatTypes THEN -9
            ELSE IF u = 1 THEN Rng(Max2(v * 255 - 20000, 0) \div 65535, (v * 255 + 20000) \div 65535)
            ELSE IF k < u - 2 THEN -9 ELSE P16(v, 2)[k - u + 3]]
ClearNode(s, n) ==
    LET px == ClrPix(s, n.f, n.t) u == Len(px) ch == ClrChan(s, n.f) IN
    [n EXCEPT !.dat = IF Size(n) > 4000 THEN Wild ELSE [i \in 1..Size(n) |-> px[((i - 1) % u) + 1]],
              !.fl = IF n.t \in FloatTypes /\ Size(n) <= 4000 THEN [i \in 1..(Count(n) * Len(ch)) |-> ch[((i - 1) % Len(ch)) + 1]] ELSE Wild,
              !.pt = IF n.f = IL_COLOUR_INDEX THEN IL_PAL_RGBA32 ELSE @,
              !.pal = IF n.f = IL_COLOUR_INDEX THEN ClrPix(s, IL_RGBA, IL_UNSIGNED_BYTE) ELSE @]

(* -------------------------------------------------------------- blitting -- *)
Upper(n) == IF n.o = IL_ORIGIN_LOWER_LEFT THEN FlipRows(n) ELSE n
RestoreO(n, o) == IF o = IL_ORIGIN_LOWER_LEFT THEN FlipRows(n) ELSE n
\* share of the front, in 1/32767ths for 16 bit and more, 1/255ths for 8 bit (fd: that denominator)
BlitNode(s, n, m, DX, DY, DZ, SX, SY, SZ, W, H, D) ==
    LET dst == Upper(n)
        up == Upper(m)
        blend == s.st[IL_BLIT_BLEND] = 1 /\ m.f \in {IL_RGBA, IL_BGRA, IL_LUMINANCE_ALPHA}
        cb == IF m.f = n.f /\ m.t = n.t THEN Buf(up) ELSE ConvBuf(Buf(up), m.f, m.t, n.f, n.t, m.pt, m.pal)
        ps == Bpp(n.f) * Bpc(n.t)
        ch == Bpp(n.f)
        u == Bpc(n.t)
        hit == [q \in 0..(Count(n) - 1) |->
                  LET x == (q % n.w) - DX y == ((q \div n.w) % n.h) - DY z == q \div (n.w * n.h) - DZ
                  IN IF x >= 0 /\ x < W /\ y >= 0 /\ y < H /\ z >= 0 /\ z < D /\ x + SX < m.w /\ y + SY < m.h /\ z + SZ < m.d
                     THEN ((z + SZ) * m.h + y + SY) * m.w + x + SX ELSE -1]
        ub == Bytes(up)
        uf == IF m.t \in FloatTypes THEN FlOf(up.dat, up.fl, m.t) ELSE Wild
        \* opacity of source pixel q: in 255ths if exact there, else in 32767ths, -1: unknown
        mc == Bpp(m.f)
        mu == Bpc(m.t)
        a255(q) == IF mu = 1 THEN ub[q * mc + mc] ELSE -1
        a32k(q) == IF mu = 1 THEN (IF Exact(ub[q * mc + mc]) THEN (ub[q * mc + mc] * 32767) \div 255 ELSE -1)
                   ELSE IF m.t \in FloatTypes THEN (IF uf = Wild \/ uf[q * mc + mc] < 0 \/ uf[q * mc + mc] > 65535 THEN -1 ELSE uf[q * mc + mc] \div 2)
                   ELSE LET v == Val16(ub[(q * mc + mc) * mu - 1], ub[(q * mc + mc) * mu]) IN IF v = -1 THEN -1 ELSE v \div 2
        kept == HasAlpha(n.f) /\ n.f # IL_ALPHA
        mix8(fr, to, a, a2) == IF ~Exact(fr) \/ ~Exact(to) THEN -9
                               ELSE IF Exact(a) THEN LET v == fr * a + to * (255 - a) IN Rng(Max2(v - 1, 0) \div 255, v \div 255)
                               ELSE IF a2 = -1 THEN -9 ELSE LET v == fr * a2 + to * (32767 - a2) IN Rng(Max2(v - 40000, 0) \div 32767, (v + 40000) \div 32767)
        mix16(fr, to, a2) == IF fr = -1 \/ to = -1 \/ a2 = -1 THEN -1 ELSE to + ((fr - to) * a2) \div 32767
        db == Bytes(dst)
        cf == IF n.t \in FloatTypes THEN FlOf(cb.dat, cb.fl, n.t) ELSE Wild
        df == IF n.t \in FloatTypes THEN FlOf(dst.dat, dst.fl, n.t) ELSE Wild
        big(v) == v < 0 \/ v > 65535
    IN IF db = Wild \/ (blend /\ ub = Wild) THEN [n EXCEPT !.dat = Wild, !.fl = Wild]
       ELSE RestoreO([dst EXCEPT
              !.dat = [i \in 1..Len(db) |->
                 LET q == hit[(i - 1) \div ps]
                     k == (i - 1) % ps
                     c == k \div u
                     e == k % u
                     j == q * ps + k + 1
                     jt == i - e
                     jf == j - e
                 IN IF q < 0 THEN db[i]
                    ELSE IF ~Known(cb.dat) THEN -9
                    ELSE IF ~blend THEN cb.dat[j]
                    ELSE IF kept /\ c = ch - 1 THEN db[i]
                    ELSE IF n.t \in FloatTypes \/ e < u - 2 THEN -9
                    ELSE IF u = 1 THEN mix8(cb.dat[j], db[i], a255(q), a32k(q))
                    ELSE LET v == mix16(Val16(cb.dat[jf + u - 2], cb.dat[jf + u - 1]), Val16(db[jt + u - 2], db[jt + u - 1]), a32k(q))
                         IN IF v = -1 THEN -9 ELSE P16(v, 6)[e - u + 3]],
              !.fl = IF cf = Wild \/ df = Wild THEN Wild
                     ELSE [i \in 1..Len(df) |->
                        LET q == hit[(i - 1) \div ch]
                            c == (i - 1) % ch
                            fr == cf[q * ch + c + 1]
                        IN IF q < 0 THEN df[i] ELSE IF ~blend THEN fr
                           ELSE IF kept /\ c = ch - 1 THEN df[i]
                           ELSE IF big(fr) \/ big(df[i]) \/ a32k(q) = -1 THEN -99999
                           ELSE df[i] + ((fr - df[i]) * a32k(q)) \div 32767]], n.o)
Blit(s, src, DX, DY, DZ, SX, SY, SZ, W, H, D) ==
    IF s.cur = 0 THEN Fail(s)
    ELSE IF src = -1 THEN Res(s, -999, Maybe)
    ELSE LET s1 == IF src \in Names(s) THEN s ELSE [s EXCEPT !.imgs = (src :> NewNode) @@ @]
             n == Cur(s1)
             m == s1.imgs[src]
         IN IF ~(m.f = n.f /\ m.t = n.t) /\ ~CanConv(m.f, m.t, n.f, n.t, m.pt) THEN Fail(s1)
            ELSE Same(SetCur(s1, BlitNode(s1, n, m, DX, DY, DZ, SX, SY, SZ, W, H, D)), 1)
Overlay(s, src, X, Y, Z) ==
    LET s1 == IF src \in Names(s) THEN s ELSE [s EXCEPT !.imgs = (src :> NewNode) @@ @]
        m == s1.imgs[src]
    IN Blit(s1, src, X, Y, Z, 0, 0, 0, m.w, m.h, m.d)

(* ------------------------------------------------------------ attributes -- *)
RegPal(s, c) ==
    IF c.nod = 1 \/ Len(c.d) = 0 \/ PalBpp(c.a[1]) = 0 THEN Res(s, -999, Some)
    ELSE IF (IF c.nod > 1 THEN c.nod ELSE Len(c.d)) % PalBpp(c.a[1]) # 0 THEN Res(s, -999, Some)
    ELSE Res(SetCur(s, [Cur(s) EXCEPT !.pt = c.a[1], !.pal = c.d, !.dat = IF IsShow(@) THEN Wild ELSE @]), -999, None)
RegOrigin(s, o) == IF o \in {IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT} THEN Res(SetCur(s, [Cur(s) EXCEPT !.o = o]), -999, None) ELSE Res(s, -999, Some)

(* ----------------------------------------------------------------- alpha -- *)
WithAlpha(f) == CASE f \in {IL_RGB, IL_COLOUR_INDEX} -> IL_RGBA [] f = IL_BGR -> IL_BGRA [] f = IL_LUMINANCE -> IL_LUMINANCE_ALPHA [] OTHER -> f
\* v in 1/256ths
AlphaBytes(t, v, u) == \* u-byte channel, rounded to nearest
    IF u = 1 THEN <<Rng(Max2(2 * v * 255 + 256 - 1, 0) \div 512, (2 * v * 255 + 256) \div 512)>>
    ELSE IF u = 2 THEN P16((2 * v * 65535 + 256) \div 512, 1)
    ELSE <<-9, -9>> \o P16(Min2((v * 65536) \div 256, 65535), 1)
PutAlpha(n, v) ==
    LET ch == Bpp(n.f) u == Bpc(n.t) ps == ch * u d == Bytes(n) px == AlphaBytes(n.t, v, u)
        f == IF n.t \in FloatTypes THEN FlOf(n.dat, n.fl, n.t) ELSE Wild IN
    [n EXCEPT !.dat = IF d = Wild THEN Wild
                      ELSE [i \in 1..Len(d) |-> IF (i - 1) % ps < ps - u THEN d[i] ELSE IF n.t \in FloatTypes THEN -9 ELSE px[((i - 1) % u) + 1]],
              !.fl = IF f = Wild THEN Wild ELSE [i \in 1..Len(f) |-> IF i % ch # 0 THEN f[i] ELSE (v * 65535) \div 256]]
SetAlpha(s, v, clamp) ==
    LET f == WithAlpha(Cur(s).f)
        cv == Convert(s, f, Cur(s).t)
        x == IF clamp THEN Min2(Max2(v, 0), 256) ELSE v
    IN IF cv.r # 1 THEN cv
       ELSE [cv EXCEPT !.s = SetCur(cv.s, PutAlpha(Cur(cv.s), x))]
GetAlpha(s, t) ==
    LET n == Cur(s)
        f == IF n.t \in FloatTypes THEN FlOf(n.dat, n.fl, n.t) ELSE Wild
        b == TypeConv([dat |-> Bytes(n), fl |-> f], n.t, t)
        ch == Bpp(n.f) u == Bpc(t)
        none == n.f \in {IL_RGB, IL_BGR, IL_LUMINANCE}
    IN IF Bpc(t) = 0 THEN ResO(s, 0, Wild, Some)
       ELSE IF n.f = IL_COLOUR_INDEX THEN ResO(s, -999, Wild, Maybe)
       ELSE ResO(s, 1, IF none THEN [i \in 1..(Count(n) * u) |-> FullByte(t, (i - 1) % u)]
                       ELSE IF ~Known(b.dat) THEN Wild
                       ELSE [i \in 1..(Count(n) * u) |-> b.dat[(((i - 1) \div u) * ch + ch - 1) * u + ((i - 1) % u) + 1]], None)

(* ---------------------------------------------------- the default image -- *)
DefaultNode(n) == [TexNode(NewNode, 64, 64, 1, IL_BGR, IL_UNSIGNED_BYTE, <<>>, 1) EXCEPT !.o = IL_ORIGIN_LOWER_LEFT]

EditOps == {"TexImage", "TexSurf", "SetData", "SetPixels", "CopyPixels", "CopyPixelsNull", "ClearColour", "Clear", "Blit", "Overlay",
            "RegPal", "RegOrigin", "SetAlpha", "ModAlpha", "GetAlpha", "DefaultImage"}
DoEdit(s, c) ==
    CASE c.op = "TexImage" -> TexImage(s, c, FALSE)
      [] c.op = "TexSurf" -> TexImage(s, c, TRUE)
      [] c.op = "SetData" -> SetData(s, c)
      [] c.op = "SetPixels" -> SetPixels(s, c)
      [] c.op = "CopyPixels" -> CopyPixels(s, c)
      [] c.op = "CopyPixelsNull" -> Fail(s)
      [] c.op = "ClearColour" -> Res([s EXCEPT !.clr = c.a], -999, None)
      [] c.op = "Clear" -> Same(SetCur(s, ClearNode(s, Cur(s))), 1)
      [] c.op = "Blit" -> Blit(s, c.a[1], c.a[2], c.a[3], c.a[4], c.a[5], c.a[6], c.a[7], c.a[8], c.a[9], c.a[10])
      [] c.op = "Overlay" -> Overlay(s, c.a[1], c.a[2], c.a[3], c.a[4])
      [] c.op = "RegPal" -> RegPal(s, c)
      [] c.op = "RegOrigin" -> RegOrigin(s, c.a[1])
      [] c.op = "SetAlpha" -> SetAlpha(s, c.a[1], TRUE)
      [] c.op = "ModAlpha" -> [SetAlpha(s, c.a[1], FALSE) EXCEPT !.r = -999]
      [] c.op = "GetAlpha" -> GetAlpha(s, c.a[1])
      [] c.op = "DefaultImage" -> Same(SetCur(s, DefaultNode(Cur(s))), 1)
===============================================================================
