-------------------------------- MODULE ILDecode --------------------------------
(* What well-formed files of the commoner formats mean: the bytes of a file   *)
(* to the image it holds.  Only files that follow their format's rules to the *)
(* letter are given a meaning (ok); about others nothing is said here.        *)
EXTENDS ILConv, Bitwise

(* ------------------------------------------------------------------ bytes -- *)
\* (positions count from 0)
Oct(b, i) == IF i \in 0..(Len(b) - 1) THEN b[i + 1] ELSE 0
Has(b, i, n) == n >= 0 /\ i >= 0 /\ i + n <= Len(b)
Cut(b, i, n) == IF Has(b, i, n) THEN SubSeq(b, i + 1, i + n) ELSE <<>>
L16(b, i) == Oct(b, i) + 256 * Oct(b, i + 1)
L32(b, i) == IF Oct(b, i + 3) > 15 THEN -1 ELSE Oct(b, i) + 256 * Oct(b, i + 1) + 65536 * Oct(b, i + 2) + 16777216 * Oct(b, i + 3)
M16(b, i) == 256 * Oct(b, i) + Oct(b, i + 1)
M32(b, i) == IF Oct(b, i) > 15 THEN -1 ELSE 16777216 * Oct(b, i) + 65536 * Oct(b, i + 1) + 256 * Oct(b, i + 2) + Oct(b, i + 3)
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Bit(b, i, k) == (Oct(b, i + (k \div 8)) \div P2[(k % 8) + 1]) % 2            \* bit k of the little-endian number at i
LBit(b, i, k) == (Oct(b, i + (k \div 8)) \div P2[8 - (k % 8)]) % 2           \* the same, counted from the upper end of each byte
RECURSIVE BitsOf(_, _, _, _)
BitsOf(b, i, lo, n) == IF n = 0 THEN 0 ELSE Bit(b, i, lo) + 2 * BitsOf(b, i, lo + 1, n - 1)
\* An n-bit channel widened to 8 bits: in the upper bits, what comes below them is not laid down.
Widened(v, n) == IF n >= 8 THEN v ELSE Rng(v * P2[9 - n], v * P2[9 - n] + P2[9 - n] - 1)
ZerosUp(b, i, n) == \A k \in i..(i + n - 1) : Oct(b, k) = 0
Decodes(n) == [ok |-> TRUE, n |-> n]
NoDecode == [ok |-> FALSE, n |-> NewNode]
Pixels(w, h, f, t, o, dat) == [NewNode EXCEPT !.w = w, !.h = h, !.f = f, !.t = t, !.o = o, !.dat = dat]
Mapped(w, h, o, dat, pt, pal) == [Pixels(w, h, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, o, dat) EXCEPT !.pt = pt, !.pal = pal]
\* planes of w*h values each, of u bytes, to interleaved pixels
Woven(p, planes, count, u) == [q \in 1..(count * planes * u) |-> LET k == (q - 1) \div u IN p[((k % planes) * count + (k \div planes)) * u + ((q - 1) % u) + 1]]
Swapped2(d) == [q \in 1..Len(d) |-> d[IF q % 2 = 1 THEN q + 1 ELSE q - 1]]
\* rows of width bytes at every stride bytes from i
Strided(b, i, width, stride, h) == [q \in 1..(width * h) |-> Oct(b, i + ((q - 1) \div width) * stride + ((q - 1) % width))]
\* pixels of n bits, upper bits first, rows at every stride bytes
Packed(b, i, n, w, stride, h) ==
    [q \in 1..(w * h) |-> LET x == (q - 1) % w y == (q - 1) \div w p == Oct(b, i + y * stride + ((x * n) \div 8)) IN
                          (p \div P2[8 - n - ((x * n) % 8) + 1]) % P2[n + 1]]
RowsTurned(d, w, u) == [q \in 1..Len(d) |-> LET k == (q - 1) \div u x == k % w y == k \div w IN d[(y * w + (w - 1 - x)) * u + ((q - 1) % u) + 1]]

(* -------------------------------------------------------- compressed blocks *)
\* 5:6:5 colour in two bytes, expanded by repeating its upper bits
Expand565(lo, hi) == LET v == lo + 256 * hi r == v \div 2048 g == (v \div 32) % 64 b == v % 32
                     IN <<r * 8 + (r \div 4), g * 4 + (g \div 16), b * 8 + (b \div 4)>>
Pow4 == <<1, 4, 16, 64>>
Pow8 == <<1, 8, 64, 512, 4096, 32768, 262144, 2097152>>
\* colour of pixel i (0..15) of the colour block at b[o+1..o+8]; three: the three-colour form exists
ColourOf(b, o, i, three) ==
    LET c0 == Expand565(b[o + 1], b[o + 2]) c1 == Expand565(b[o + 3], b[o + 4])
        code == (b[o + 5 + (i \div 4)] \div Pow4[(i % 4) + 1]) % 4
        four == ~three \/ b[o + 1] + 256 * b[o + 2] > b[o + 3] + 256 * b[o + 4]
    IN CASE code = 0 -> c0 \o <<255>>
         [] code = 1 -> c1 \o <<255>>
         [] code = 2 -> [k \in 1..3 |-> IF four THEN (2 * c0[k] + c1[k] + 1) \div 3 ELSE (c0[k] + c1[k]) \div 2] \o <<255>>
         [] OTHER -> IF four THEN [k \in 1..3 |-> (c0[k] + 2 * c1[k] + 1) \div 3] \o <<255>> ELSE <<-9, -9, -9, 0>>
\* value of pixel i of an eight-byte block of interpolated values; near: to the nearest, else cut off
ValueOf(b, o, i, near) ==
    LET a0 == b[o + 1] a1 == b[o + 2]
        p == IF i < 8 THEN o + 3 ELSE o + 6
        bits == b[p] + 256 * b[p + 1] + 65536 * b[p + 2]
        code == (bits \div Pow8[(i % 8) + 1]) % 8
        mix(k, n) == IF near THEN ((n - k) * a0 + k * a1 + (n \div 2)) \div n
                     ELSE IF a1 >= a0 THEN a0 + (((a1 - a0) * k) \div n) ELSE a0 - (((a0 - a1) * k) \div n)
    IN IF code = 0 THEN a0 ELSE IF code = 1 THEN a1
       ELSE IF a0 > a1 THEN mix(code - 1, 7)
       ELSE IF code = 6 THEN 0 ELSE IF code = 7 THEN 255 ELSE mix(code - 1, 5)
NibbleOf(b, o, i) == LET v == b[o + 1 + (i \div 2)] IN 17 * (IF i % 2 = 0 THEN v % 16 ELSE v \div 16)
\* RGBA of pixel i of the block at b[o+1..]
TexelOf(f, b, o, i) ==
    CASE f \in {IL_DXT1, IL_DXT1A} -> ColourOf(b, o, i, TRUE)
      [] f \in {IL_DXT2, IL_DXT3} -> [ColourOf(b, o + 8, i, FALSE) EXCEPT ![4] = NibbleOf(b, o, i)]
      [] f \in {IL_DXT4, IL_DXT5} -> [ColourOf(b, o + 8, i, FALSE) EXCEPT ![4] = ValueOf(b, o, i, TRUE)]
      [] f = IL_RXGB -> [ColourOf(b, o + 8, i, FALSE) EXCEPT ![1] = ValueOf(b, o, i, TRUE)]
      [] f = IL_ATI1N -> LET v == ValueOf(b, o, i, FALSE) IN <<v, v, v, 255>>
      [] OTHER -> <<ValueOf(b, o + 8, i, FALSE), ValueOf(b, o, i, FALSE), -9, 255>>      \* 3DC: Y first, then X
DxBlock(f) == IF f \in {IL_DXT1, IL_DXT1A, IL_ATI1N} THEN 8 ELSE 16
Blocks(w) == (w + 3) \div 4
DxSize(f, w, h, d) == Blocks(w) * Blocks(h) * d * DxBlock(f)
\* all of them, upper row first
Decoded(f, b, w, h, d) ==
    IF ~Known(b) \/ Len(b) # DxSize(f, w, h, d) THEN Wild
    ELSE [q \in 1..(w * h * d * 4) |->
            LET p == (q - 1) \div 4 x == p % w y == (p \div w) % h z == p \div (w * h)
                o == ((z * Blocks(h) + (y \div 4)) * Blocks(w) + (x \div 4)) * DxBlock(f)
            IN TexelOf(f, b, o, 4 * (y % 4) + (x % 4))[((q - 1) % 4) + 1]]

(* -------------------------------------------------------------------- DDS -- *)
\* a channel mask: its lowest bit and how many there are
MaskBits(b, i) == {k \in 0..31 : Bit(b, i, k) = 1}
MaskOf(b, i) == LET S == MaskBits(b, i) IN IF S = {} THEN <<0, 0>> ELSE LET lo == CHOOSE k \in S : \A j \in S : k <= j IN <<lo, Cardinality(S)>>
MaskSound(b, i) == LET m == MaskOf(b, i) IN m[2] <= 8 /\ (m[2] = 0 \/ \A k \in m[1]..(m[1] + m[2] - 1) : Bit(b, i, k) = 1)
MaskVal(b, p, m) == Widened(BitsOf(b, p, m[1], m[2]), m[2])
FourCC == [c \in {<<68, 88, 84, 49>>, <<68, 88, 84, 51>>, <<68, 88, 84, 53>>, <<65, 84, 73, 49>>, <<65, 84, 73, 50>>, <<82, 88, 71, 66>>} |->
           CASE c = <<68, 88, 84, 49>> -> IL_DXT1 [] c = <<68, 88, 84, 51>> -> IL_DXT3 [] c = <<68, 88, 84, 53>> -> IL_DXT5
             [] c = <<65, 84, 73, 49>> -> IL_ATI1N [] c = <<65, 84, 73, 50>> -> IL_3DC [] OTHER -> IL_RXGB]
\* what the header says: [ok, dx (0: plain), f, t, u (bytes per pixel of the file)]
DdsForm(b) ==
    LET pf == L32(b, 80) bits == L32(b, 88)
        R == MaskOf(b, 92) G == MaskOf(b, 96) B4 == MaskOf(b, 100) A == MaskOf(b, 104)
        lum == pf \in {131072, 131073}
        no == [ok |-> FALSE, dx |-> 0, f |-> IL_RGB, t |-> IL_UNSIGNED_BYTE, u |-> 1]
        sound == bits \in {8, 16, 24, 32} /\ \A k \in {92, 96, 100, 104} : MaskSound(b, k) /\ \A j \in MaskBits(b, k) : j < bits
    IN IF pf = 4 THEN (IF Cut(b, 84, 4) \in DOMAIN FourCC
                       THEN LET x == FourCC[Cut(b, 84, 4)] IN
                            [ok |-> TRUE, dx |-> x, f |-> CASE x = IL_ATI1N -> IL_LUMINANCE [] x \in {IL_3DC, IL_RXGB} -> IL_RGB [] OTHER -> IL_RGBA, t |-> IL_UNSIGNED_BYTE, u |-> 0]
                       ELSE no)
       ELSE IF pf = 131072 /\ bits = 16 /\ MaskBits(b, 92) = 0..15 THEN [no EXCEPT !.ok = TRUE, !.f = IL_LUMINANCE, !.t = IL_UNSIGNED_SHORT, !.u = 2]
       ELSE IF ~sound \/ R[2] = 0 THEN no
       ELSE IF pf = 131072 /\ bits = 8 /\ R[2] = 8 THEN [no EXCEPT !.ok = TRUE, !.f = IL_LUMINANCE, !.u = 1]
       ELSE IF pf = 131073 /\ A[2] > 0 THEN [no EXCEPT !.ok = TRUE, !.f = IL_LUMINANCE_ALPHA, !.u = bits \div 8]
       ELSE IF pf = 64 /\ G[2] > 0 /\ B4[2] > 0 THEN [no EXCEPT !.ok = TRUE, !.f = IL_RGB, !.u = bits \div 8]
       ELSE IF pf = 65 /\ G[2] > 0 /\ B4[2] > 0 /\ A[2] > 0 THEN [no EXCEPT !.ok = TRUE, !.f = IL_RGBA, !.u = bits \div 8]
       ELSE no
DdsSize(m, w, h, d) == IF m.dx # 0 THEN DxSize(m.dx, w, h, d) ELSE w * h * d * m.u
DdsSurface(b, m, i, w, h, d) ==
    LET ch == CASE m.f = IL_LUMINANCE -> <<92>> [] m.f = IL_LUMINANCE_ALPHA -> <<92, 104>> [] m.f = IL_RGB -> <<92, 96, 100>> [] OTHER -> <<92, 96, 100, 104>>
        masks == [k \in 1..Len(ch) |-> MaskOf(b, ch[k])]
        n == Len(ch)
        px == Decoded(m.dx, Cut(b, i, DxSize(m.dx, w, h, d)), w, h, d)
    IN IF m.dx # 0 THEN [q \in 1..(w * h * d * n) |-> px[((q - 1) \div n) * 4 + ((q - 1) % n) + 1]]
       ELSE IF m.t = IL_UNSIGNED_SHORT THEN Cut(b, i, w * h * d * 2)
       ELSE [q \in 1..(w * h * d * n) |-> MaskVal(b, i + ((q - 1) \div n) * m.u, masks[((q - 1) % n) + 1])]
RECURSIVE DdsChain(_, _, _, _, _, _, _)
\* the chain of `left' levels from position i on
DdsChain(b, m, i, w, h, d, left) ==
    IF left = 0 THEN [ok |-> TRUE, n |-> <<>>, i |-> i]
    ELSE IF ~Has(b, i, DdsSize(m, w, h, d)) THEN [ok |-> FALSE, n |-> <<>>, i |-> i]
    ELSE LET r == DdsChain(b, m, i + DdsSize(m, w, h, d), Max2(w \div 2, 1), Max2(h \div 2, 1), Max2(d \div 2, 1), left - 1)
         IN [ok |-> r.ok, i |-> r.i, n |-> << [Pixels(w, h, m.f, m.t, IL_ORIGIN_UPPER_LEFT, DdsSurface(b, m, i, w, h, d)) EXCEPT !.d = d, !.M = r.n] >>]
RECURSIVE DdsFaces(_, _, _, _, _, _, _)
DdsFaces(b, m, i, w, h, left, faces) ==
    IF faces = <<>> THEN [ok |-> TRUE, n |-> <<>>, i |-> i]
    ELSE LET one == DdsChain(b, m, i, w, h, 1, left) rest == DdsFaces(b, m, one.i, w, h, left, Tail(faces))
         IN IF ~one.ok THEN one
            ELSE IF ~rest.ok THEN rest
            ELSE [ok |-> TRUE, i |-> rest.i, n |-> << [one.n[1] EXCEPT !.cb = Head(faces), !.F = rest.n] >>]
FaceBits == <<1024, 2048, 4096, 8192, 16384, 32768>>
DecodeDds(b) ==
    LET fl == L32(b, 8) h == L32(b, 12) w == L32(b, 16) d0 == L32(b, 24) mips == L32(b, 28) c1 == L32(b, 108) c2 == L32(b, 112)
        m == DdsForm(b)
        levels == IF (fl \div 131072) % 2 = 1 THEN mips ELSE 1
        cube == (c2 \div 512) % 2 = 1
        volume == (c2 \div 2097152) % 2 = 1
        d == IF volume THEN d0 ELSE 1
        faces == SelectSeq(FaceBits, LAMBDA k : (c2 \div k) % 2 = 1)
        linear == (fl \div 524288) % 2 = 1
        z == IF cube THEN DdsFaces(b, m, 128, w, h, levels, faces) ELSE DdsChain(b, m, 128, w, h, d, levels)
    IN IF Len(b) < 128 \/ Cut(b, 0, 4) # <<68, 68, 83, 32>> \/ L32(b, 4) # 124 \/ L32(b, 76) # 32 THEN NoDecode
       ELSE IF fl < 0 \/ c1 < 0 \/ c2 < 0 \/ h \notin 1..64 \/ w \notin 1..64 \/ mips \notin 0..8 \/ d0 \notin 0..16 \/ levels < 1 \/ (fl % 8) # 7 \/ ~m.ok THEN NoDecode
       ELSE IF (volume /\ (d0 < 1 \/ (fl \div 8388608) % 2 = 0)) \/ (~volume /\ ((fl \div 8388608) % 2 = 1 \/ d0 > 1)) \/ (cube /\ (volume \/ faces = <<>>)) \/ ((cube \/ volume) /\ (c1 \div 8) % 2 = 0) THEN NoDecode
       ELSE IF linear /\ L32(b, 20) # DdsSize(m, w, h, d) THEN NoDecode
       ELSE IF ~z.ok \/ z.i # Len(b) THEN NoDecode
       ELSE Decodes(z.n[1])

(* -------------------------------------------------------------------- TGA -- *)
RECURSIVE TgaRuns(_, _, _, _, _)
TgaRuns(b, i, u, need, acc) ==
    IF Len(acc) >= need THEN [ok |-> Len(acc) = need, d |-> acc, i |-> i]
    ELSE IF ~Has(b, i, 1) THEN [ok |-> FALSE, d |-> acc, i |-> i]
    ELSE LET k == Oct(b, i) n == (k % 128) + 1 IN
         IF k >= 128 THEN (IF ~Has(b, i + 1, u) THEN [ok |-> FALSE, d |-> acc, i |-> i]
                           ELSE TgaRuns(b, i + 1 + u, u, need, acc \o [q \in 1..(n * u) |-> Oct(b, i + 1 + ((q - 1) % u))]))
         ELSE IF ~Has(b, i + 1, n * u) THEN [ok |-> FALSE, d |-> acc, i |-> i]
         ELSE TgaRuns(b, i + 1 + n * u, u, need, acc \o Cut(b, i + 1, n * u))
Five(v, k) == Widened((v \div P2[k + 1]) % 32, 5)
Bgr15(d, i) == LET v == d[i + 1] + 256 * d[i + 2] IN <<Five(v, 0), Five(v, 5), Five(v, 10)>>
DecodeTga(b) ==
    LET id == Oct(b, 0) cm == Oct(b, 1) ty == Oct(b, 2) first == L16(b, 3) len == L16(b, 5) es == Oct(b, 7)
        w == L16(b, 12) h == L16(b, 14) bits == Oct(b, 16) desc == Oct(b, 17)
        u == bits \div 8
        rle == ty > 8
        kind == IF rle THEN ty - 8 ELSE ty
        pos == 18 + id
        plen == IF cm = 1 THEN len * (IF es = 16 THEN 2 ELSE es \div 8) ELSE 0
        r == IF rle THEN TgaRuns(b, pos + plen, u, w * h * u, <<>>)
             ELSE IF Has(b, pos + plen, w * h * u) THEN [ok |-> TRUE, d |-> Cut(b, pos + plen, w * h * u), i |-> pos + plen + w * h * u] ELSE [ok |-> FALSE, d |-> <<>>, i |-> 0]
        px == IF desc \div 16 % 2 = 1 THEN RowsTurned(r.d, w, u) ELSE r.d
        o == IF desc \div 32 % 2 = 1 THEN IL_ORIGIN_UPPER_LEFT ELSE IL_ORIGIN_LOWER_LEFT
        pal == IF es = 16 THEN [q \in 1..(len * 4) |-> LET j == pos + ((q - 1) \div 4) * 2 c == (q - 1) % 4 IN
                                   IF c = 3 THEN (IF Oct(b, j + 1) > 127 THEN 255 ELSE 0) ELSE Bgr15(<<Oct(b, j), Oct(b, j + 1)>>, 0)[c + 1]]
               ELSE Cut(b, pos, plen)
    IN IF Len(b) < 18 THEN NoDecode
       ELSE IF kind \notin {1, 2, 3} \/ ty \notin {1, 2, 3, 9, 10, 11} \/ cm \notin {0, 1} \/ w \notin 1..200 \/ h \notin 1..200 \/ desc >= 64 \/ desc \div 16 % 2 = 1 THEN NoDecode      \* (the library takes bit 4 for reserved)
       ELSE IF (cm = 1 /\ (es \notin {16, 24, 32} \/ len = 0 \/ len > 256 \/ first # 0)) \/ (cm = 0 /\ (len # 0 \/ first # 0)) \/ ~Has(b, pos, plen) THEN NoDecode
       ELSE IF (kind = 1 /\ (cm = 0 \/ bits # 8)) \/ (kind = 2 /\ bits \notin {16, 24, 32}) \/ (kind = 3 /\ bits # 8) THEN NoDecode
       ELSE IF ~r.ok THEN NoDecode
       ELSE Decodes(CASE kind = 1 -> Mapped(w, h, o, px, IF es = 24 THEN IL_PAL_BGR24 ELSE IL_PAL_BGRA32, pal)
                      [] kind = 3 -> Pixels(w, h, IL_LUMINANCE, IL_UNSIGNED_BYTE, o, px)
                      [] bits = 16 -> Pixels(w, h, IL_BGR, IL_UNSIGNED_BYTE, o, [q \in 1..(w * h * 3) |-> Bgr15(px, ((q - 1) \div 3) * 2)[((q - 1) % 3) + 1]])
                      [] OTHER -> Pixels(w, h, IF bits = 24 THEN IL_BGR ELSE IL_BGRA, IL_UNSIGNED_BYTE, o, px))

(* -------------------------------------------------------------------- BMP -- *)
\* Runs into a w*h map of indices; cells never written keep -9.  x, y: where the next one goes.
RECURSIVE BmpRuns(_, _, _, _, _, _, _, _)
BmpRuns(b, i, n, w, h, x, y, m) ==
    LET bad == [ok |-> FALSE, d |-> m]
        nib(p, k) == IF n = 8 THEN Oct(b, p + k) ELSE IF k % 2 = 0 THEN Oct(b, p + (k \div 2)) \div 16 ELSE Oct(b, p + (k \div 2)) % 16
        run(c) == IF n = 8 THEN Oct(b, i + 1) ELSE IF c % 2 = 0 THEN Oct(b, i + 1) \div 16 ELSE Oct(b, i + 1) % 16
        put(c, v(_)) == [q \in DOMAIN m |-> IF q > y * w + x /\ q <= y * w + x + c THEN v(q - 1 - y * w - x) ELSE m[q]]
    IN IF ~Has(b, i, 2) THEN bad
       ELSE LET a == Oct(b, i) c == Oct(b, i + 1) IN
            IF a > 0 THEN (IF x + a > w \/ y >= h THEN bad ELSE BmpRuns(b, i + 2, n, w, h, x + a, y, put(a, run)))
            ELSE CASE c = 0 -> BmpRuns(b, i + 2, n, w, h, 0, y + 1, m)
                   [] c = 1 -> [ok |-> i + 2 = Len(b), d |-> m]
                   [] c = 2 -> IF ~Has(b, i, 4) THEN bad
                               ELSE IF x + Oct(b, i + 2) > w \/ y + Oct(b, i + 3) >= h THEN bad
                               ELSE BmpRuns(b, i + 4, n, w, h, x + Oct(b, i + 2), y + Oct(b, i + 3), m)
                   [] OTHER -> LET z == IF n = 8 THEN c ELSE (c + 1) \div 2 z2 == z + (z % 2) IN
                               IF ~Has(b, i + 2, z2) \/ x + c > w \/ y >= h THEN bad
                               ELSE BmpRuns(b, i + 2 + z2, n, w, h, x + c, y, put(c, LAMBDA k : nib(i + 2, k)))
DecodeBmp(b) ==
    LET off == L32(b, 10) hs == L32(b, 14) os2 == hs = 12
        w == IF os2 THEN L16(b, 18) ELSE L32(b, 18)
        top == ~os2 /\ Oct(b, 25) > 127                      \* a negative height: upper row first
        h == IF os2 THEN L16(b, 20) ELSE IF top THEN 256 - Oct(b, 22) ELSE L32(b, 22)
        bits == IF os2 THEN L16(b, 24) ELSE L16(b, 28)
        planes == IF os2 THEN L16(b, 22) ELSE L16(b, 26)
        comp == IF os2 THEN 0 ELSE L32(b, 30)
        used == IF os2 THEN 0 ELSE L32(b, 46)
        n == IF bits > 8 THEN 0 ELSE IF os2 \/ used = 0 THEN P2[bits + 1] ELSE used
        psize == n * (IF os2 THEN 3 ELSE 4)
        pal == Cut(b, 14 + hs, psize)
        stride == ((w * bits + 31) \div 32) * 4
        o == IF top THEN IL_ORIGIN_UPPER_LEFT ELSE IL_ORIGIN_LOWER_LEFT
        pt == IF os2 THEN IL_PAL_BGR24 ELSE IL_PAL_BGR32
        masks == IF comp = 3 THEN <<MaskOf(b, 62), MaskOf(b, 58), MaskOf(b, 54)>> ELSE IF bits = 16 THEN << <<0, 5>>, <<5, 5>>, <<10, 5>> >> ELSE << <<0, 8>>, <<8, 8>>, <<16, 8>> >>
        r == BmpRuns(b, off, bits, w, h, 0, 0, [q \in 1..(w * h) |-> -9])
    IN IF Len(b) < 54 \/ Cut(b, 0, 2) # <<66, 77>> \/ L32(b, 2) # Len(b) \/ hs \notin {12, 40} \/ planes # 1 THEN NoDecode
       ELSE IF ~os2 /\ top /\ ~(Oct(b, 25) = 255 /\ Oct(b, 24) = 255 /\ Oct(b, 23) = 255) THEN NoDecode
       ELSE IF w \notin 1..200 \/ h \notin 1..200 \/ bits \notin {1, 4, 8, 16, 24, 32} \/ (os2 /\ bits \in {16, 32}) \/ comp \notin {0, 1, 2, 3} \/ used < 0 \/ (bits <= 8 /\ used > P2[bits + 1]) THEN NoDecode
       ELSE IF (comp = 1 /\ (bits # 8 \/ top)) \/ (comp = 2 /\ (bits # 4 \/ top)) \/ (comp = 3 /\ bits \notin {16, 32}) THEN NoDecode
       ELSE IF off # 14 + hs + psize + (IF comp = 3 THEN 12 ELSE 0) \/ off > Len(b) THEN NoDecode
       ELSE IF comp = 3 /\ ~(\A k \in {54, 58, 62} : MaskSound(b, k) /\ MaskBits(b, k) # {}) THEN NoDecode
       ELSE IF comp \in {1, 2} THEN (IF r.ok THEN Decodes(Mapped(w, h, o, r.d, pt, pal)) ELSE NoDecode)
       ELSE IF Len(b) # off + stride * h THEN NoDecode
       ELSE Decodes(CASE bits = 8 -> Mapped(w, h, o, Strided(b, off, w, stride, h), pt, pal)
                      [] bits < 8 -> Mapped(w, h, o, Packed(b, off, bits, w, stride, h), pt, pal)
                      [] bits = 24 -> Pixels(w, h, IL_BGR, IL_UNSIGNED_BYTE, o, Strided(b, off, 3 * w, stride, h))
                      [] OTHER -> Pixels(w, h, IL_BGR, IL_UNSIGNED_BYTE, o,
                                         [q \in 1..(w * h * 3) |-> LET k == (q - 1) \div 3 IN MaskVal(b, off + (k \div w) * stride + (k % w) * (bits \div 8), masks[((q - 1) % 3) + 1])]))

(* -------------------------------------------------------------------- PCX -- *)
\* one scan line of n bytes from i on
RECURSIVE PcxLine(_, _, _, _)
PcxLine(b, i, n, acc) ==
    IF Len(acc) >= n THEN [ok |-> Len(acc) = n, d |-> acc, i |-> i]
    ELSE IF ~Has(b, i, 1) THEN [ok |-> FALSE, d |-> acc, i |-> i]
    ELSE IF Oct(b, i) < 192 THEN PcxLine(b, i + 1, n, Append(acc, Oct(b, i)))
    ELSE IF ~Has(b, i, 2) \/ Oct(b, i) = 192 THEN [ok |-> FALSE, d |-> acc, i |-> i]
    ELSE PcxLine(b, i + 2, n, acc \o [k \in 1..(Oct(b, i) - 192) |-> Oct(b, i + 1)])
RECURSIVE PcxLines(_, _, _, _, _)
PcxLines(b, i, n, h, acc) ==
    IF h = 0 THEN [ok |-> TRUE, d |-> acc, i |-> i]
    ELSE LET r == PcxLine(b, i, n, <<>>) IN IF ~r.ok THEN r ELSE PcxLines(b, r.i, n, h - 1, acc \o r.d)
DecodePcx(b) ==
    LET bits == Oct(b, 3) x0 == L16(b, 4) y0 == L16(b, 6) w == L16(b, 8) - x0 + 1 h == L16(b, 10) - y0 + 1 planes == Oct(b, 65) line == L16(b, 66)
        r == PcxLines(b, 128, line * planes, h, <<>>)
        bit(y, p, x) == LBit(r.d, (y * planes + p) * line, x)
    IN IF Len(b) < 128 THEN NoDecode
       ELSE IF Oct(b, 0) # 10 \/ Oct(b, 1) # 5 \/ Oct(b, 2) # 1 \/ w \notin 1..200 \/ h \notin 1..200 \/ line * 8 < w * bits \/ line % 2 = 1 THEN NoDecode
       ELSE IF <<bits, planes>> \notin { <<1, 1>>, <<1, 4>>, <<8, 1>>, <<8, 3>>, <<8, 4>> } \/ ~r.ok THEN NoDecode
       ELSE IF bits = 8 /\ planes = 1
            THEN (IF Len(b) # r.i + 769 \/ Oct(b, r.i) # 12 THEN NoDecode
                  ELSE Decodes(Mapped(w, h, IL_ORIGIN_UPPER_LEFT, Strided(r.d, 0, w, line, h), IL_PAL_RGB24, Cut(b, r.i + 1, 768))))
       ELSE IF Len(b) # r.i THEN NoDecode
       ELSE IF planes = 1 THEN Decodes(Pixels(w, h, IL_LUMINANCE, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT, [q \in 1..(w * h) |-> 255 * bit((q - 1) \div w, 0, (q - 1) % w)]))
       ELSE IF bits = 1 THEN Decodes(Mapped(w, h, IL_ORIGIN_UPPER_LEFT,
                                            [q \in 1..(w * h) |-> LET y == (q - 1) \div w x == (q - 1) % w IN bit(y, 0, x) + 2 * bit(y, 1, x) + 4 * bit(y, 2, x) + 8 * bit(y, 3, x)],
                                            IL_PAL_RGB24, Cut(b, 16, 48)))
       ELSE Decodes(Pixels(w, h, IF planes = 3 THEN IL_RGB ELSE IL_RGBA, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT,
                           [q \in 1..(w * h * planes) |-> LET k == (q - 1) \div planes IN r.d[((k \div w) * planes + ((q - 1) % planes)) * line + (k % w) + 1]]))

(* -------------------------------------------------------------------- SGI -- *)
RECURSIVE SgiLine(_, _, _, _, _)
SgiLine(b, i, u, n, acc) ==
    LET bad == [ok |-> FALSE, d |-> acc, i |-> i] IN
    IF ~Has(b, i, u) THEN bad
    ELSE LET k == Oct(b, i + u - 1) c == k % 128 IN
         IF u = 2 /\ Oct(b, i) # 0 THEN bad
         ELSE IF c = 0 THEN [ok |-> Len(acc) = n, d |-> acc, i |-> i + u]
         ELSE IF Len(acc) + c * u > n THEN bad
         ELSE IF k >= 128 THEN (IF ~Has(b, i + u, c * u) THEN bad ELSE SgiLine(b, i + u + c * u, u, n, acc \o Cut(b, i + u, c * u)))
         ELSE IF ~Has(b, i + u, u) THEN bad
         ELSE SgiLine(b, i + 2 * u, u, n, acc \o [q \in 1..(c * u) |-> Oct(b, i + u + ((q - 1) % u))])
DecodeSgi(b) ==
    LET rle == Oct(b, 2) u == Oct(b, 3) dim == M16(b, 4) w == M16(b, 6) h == M16(b, 8) c == M16(b, 10)
        lines == h * c
        line(k) == SgiLine(b, M32(b, 512 + 4 * k), u, w * u, <<>>)
        all == [k \in 0..(lines - 1) |-> line(k)]
        planes == IF rle = 0 THEN Cut(b, 512, w * h * c * u)
                  ELSE [q \in 1..(w * h * c * u) |-> LET r == all[(q - 1) \div (w * u)].d IN r[((q - 1) % (w * u)) + 1]]
        d == Woven(planes, c, w * h, u)
    IN IF Len(b) < 512 THEN NoDecode
       ELSE IF Cut(b, 0, 2) # <<1, 218>> \/ rle \notin {0, 1} \/ u \notin {1, 2} \/ w \notin 1..64 \/ h \notin 1..64 \/ c \notin {1, 3, 4} \/ dim \notin {2, 3} \/ (dim = 2 /\ c # 1) THEN NoDecode
       ELSE IF Cut(b, 12, 4) # <<0, 0, 0, 0>> \/ M32(b, 16) # P2[8] * 2 * (IF u = 2 THEN 256 ELSE 1) - 1 \/ ~ZerosUp(b, 104, 4) THEN NoDecode
       ELSE IF rle = 0 /\ Len(b) # 512 + w * h * c * u THEN NoDecode
       ELSE IF rle = 1 /\ (Len(b) < 512 + 8 * lines \/ \E k \in 0..(lines - 1) : M32(b, 512 + 4 * k) < 512 + 8 * lines) THEN NoDecode
       ELSE IF rle = 1 /\ (\E k \in 0..(lines - 1) : ~all[k].ok \/ all[k].i - M32(b, 512 + 4 * k) # M32(b, 512 + 4 * (lines + k))) THEN NoDecode
       ELSE Decodes(Pixels(w, h, CASE c = 1 -> IL_LUMINANCE [] c = 3 -> IL_RGB [] OTHER -> IL_RGBA, IF u = 1 THEN IL_UNSIGNED_BYTE ELSE IL_UNSIGNED_SHORT,
                           IL_ORIGIN_LOWER_LEFT, IF u = 2 THEN Swapped2(d) ELSE d))

(* -------------------------------------------------------------------- PNM -- *)
Blank(c) == c \in {9, 10, 11, 12, 13, 32}
\* the position after blanks and comments
RECURSIVE SkipBlank(_, _)
RECURSIVE SkipLine(_, _)
SkipLine(b, i) == IF i >= Len(b) THEN i ELSE IF Oct(b, i) = 10 THEN i + 1 ELSE SkipLine(b, i + 1)
SkipBlank(b, i) == IF i >= Len(b) THEN i ELSE IF Oct(b, i) = 35 THEN SkipBlank(b, SkipLine(b, i)) ELSE IF Blank(Oct(b, i)) THEN SkipBlank(b, i + 1) ELSE i
RECURSIVE Digits(_, _, _)
Digits(b, i, v) == IF i < Len(b) /\ Oct(b, i) \in 48..57 /\ v < 100000 THEN Digits(b, i + 1, 10 * v + Oct(b, i) - 48) ELSE [v |-> v, i |-> i]
\* the next number; it has to be followed by a blank (or the end)
Num(b, i) == LET j == SkipBlank(b, i) r == Digits(b, j, 0) IN [ok |-> r.i > j /\ (r.i >= Len(b) \/ Blank(Oct(b, r.i))), v |-> r.v, i |-> r.i]
\* the next n bits as text; blanks between them may be there
RECURSIVE TextBits(_, _, _, _)
TextBits(b, i, n, acc) == LET j == SkipBlank(b, i) IN
    IF n = 0 THEN [ok |-> TRUE, d |-> acc, i |-> i] ELSE IF j >= Len(b) THEN [ok |-> FALSE, d |-> acc, i |-> j]
    ELSE IF Oct(b, j) \notin {48, 49} THEN [ok |-> FALSE, d |-> acc, i |-> j] ELSE TextBits(b, j + 1, n - 1, Append(acc, Oct(b, j) - 48))
RECURSIVE Nums(_, _, _, _)
Nums(b, i, n, acc) == IF n = 0 THEN [ok |-> TRUE, d |-> acc, i |-> i] ELSE LET r == Num(b, i) IN IF ~r.ok THEN [ok |-> FALSE, d |-> acc, i |-> i] ELSE Nums(b, r.i, n - 1, Append(acc, r.v))
DecodePnm(b) ==
    LET kind == Oct(b, 1) - 48
        head == Nums(b, 2, IF kind \in {1, 4} THEN 2 ELSE 3, <<>>)
        w == head.d[1] h == head.d[2] max == IF kind \in {1, 4} THEN 1 ELSE head.d[3]
        c == IF kind \in {3, 6} THEN 3 ELSE 1
        f == IF c = 3 THEN IL_RGB ELSE IL_LUMINANCE
        text == IF kind = 1 THEN TextBits(b, head.i, w * h, <<>>) ELSE Nums(b, head.i, w * h * c, <<>>)
        stride == (w + 7) \div 8
        i == head.i + 1
        mk(dat) == Decodes(Pixels(w, h, f, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT, dat))
    IN IF Len(b) < 8 \/ Oct(b, 0) # 80 \/ kind \notin 1..6 \/ ~Blank(Oct(b, 2)) THEN NoDecode
       ELSE IF ~head.ok THEN NoDecode
       ELSE IF w \notin 1..200 \/ h \notin 1..200 THEN NoDecode
       ELSE CASE kind = 4 -> IF Len(b) # i + stride * h THEN NoDecode ELSE mk([q \in 1..(w * h) |-> 255 * (1 - LBit(b, i + ((q - 1) \div w) * stride, (q - 1) % w))])
              [] kind \in {5, 6} -> IF max # 255 \/ Len(b) # i + w * h * c THEN NoDecode ELSE mk(Cut(b, i, w * h * c))
              [] kind = 1 -> IF ~text.ok THEN NoDecode ELSE mk([q \in 1..(w * h) |-> 255 * (1 - text.d[q])])
              [] OTHER -> IF max \notin {255, 65535} \/ ~text.ok \/ (\E k \in DOMAIN text.d : text.d[k] > max) THEN NoDecode
                          ELSE IF max = 255 THEN mk(text.d)
                          ELSE Decodes(Pixels(w, h, f, IL_UNSIGNED_SHORT, IL_ORIGIN_UPPER_LEFT, [q \in 1..(w * h * c * 2) |-> LET v == text.d[(q + 1) \div 2] IN IF q % 2 = 1 THEN v % 256 ELSE v \div 256]))

(* -------------------------------------------------------------------- PSD -- *)
\* n bytes packed with runs, of which the packed form takes z bytes from i on
RECURSIVE PackBits(_, _, _, _, _)
PackBits(b, i, z, n, acc) ==
    LET bad == [ok |-> FALSE, d |-> acc] IN
    IF z = 0 THEN [ok |-> Len(acc) = n, d |-> acc]
    ELSE IF z < 0 \/ ~Has(b, i, z) THEN bad
    ELSE LET k == Oct(b, i) IN
         IF k = 128 THEN PackBits(b, i + 1, z - 1, n, acc)
         ELSE IF k < 128 THEN (IF z < k + 2 THEN bad ELSE PackBits(b, i + k + 2, z - k - 2, n, acc \o Cut(b, i + 1, k + 1)))
         ELSE IF z < 2 THEN bad
         ELSE PackBits(b, i + 2, z - 2, n, acc \o [q \in 1..(257 - k) |-> Oct(b, i + 1)])
RECURSIVE PsdRows(_, _, _, _, _, _)
\* rows of n bytes whose packed lengths are listed from t on
PsdRows(b, t, i, n, left, acc) ==
    IF left = 0 THEN [ok |-> TRUE, d |-> acc, i |-> i]
    ELSE LET z == M16(b, t) r == PackBits(b, i, z, n, <<>>) IN IF ~r.ok THEN [ok |-> FALSE, d |-> acc, i |-> i] ELSE PsdRows(b, t + 2, i + z, n, left - 1, acc \o r.d)
DecodePsd(b) ==
    LET c == M16(b, 12) h == M32(b, 14) w == M32(b, 18) bits == M16(b, 22) mode == M16(b, 24)
        cm == M32(b, 26) res == M32(b, 30 + cm) misc == M32(b, 34 + cm + res)
        z == 38 + cm + res + misc                            \* where the pixels start
        rle == M16(b, z)
        u == bits \div 8
        all == IF rle = 0 THEN [ok |-> Len(b) = z + 2 + w * h * c * u, d |-> Cut(b, z + 2, w * h * c * u), i |-> Len(b)]
               ELSE PsdRows(b, z + 2, z + 2 + 2 * h * c, w, h * c, <<>>)
        used == IF mode \in {1, 2} THEN 1 ELSE c
        d == Woven(all.d, used, w * h, u)
    IN IF Len(b) < 40 THEN NoDecode
       ELSE IF Cut(b, 0, 6) # <<56, 66, 80, 83, 0, 1>> \/ ~ZerosUp(b, 6, 6) \/ w \notin 1..64 \/ h \notin 1..64 \/ bits \notin {8, 16} \/ mode \notin {1, 2, 3} THEN NoDecode
       ELSE IF cm < 0 \/ ~Has(b, 30, cm + 4) THEN NoDecode
       ELSE IF (mode = 2) # (cm = 768) \/ (mode # 2 /\ cm # 0) \/ res # 0 \/ ~Has(b, 34 + cm, 4) THEN NoDecode
       ELSE IF misc # 0 \/ ~Has(b, z, 2) THEN NoDecode
       ELSE IF rle \notin {0, 1} \/ (rle = 1 /\ (bits # 8 \/ ~Has(b, z + 2, 2 * h * c))) THEN NoDecode
       ELSE IF (mode = 1 /\ c \notin {1, 2}) \/ (mode = 2 /\ (c # 1 \/ bits # 8)) \/ (mode = 3 /\ c \notin {3, 4}) THEN NoDecode
       ELSE IF ~all.ok \/ all.i # Len(b) THEN NoDecode
       ELSE Decodes(CASE mode = 2 -> Mapped(w, h, IL_ORIGIN_UPPER_LEFT, all.d, IL_PAL_RGB24, Woven(Cut(b, 30, 768), 3, 256, 1))
                      [] OTHER -> Pixels(w, h, CASE mode = 1 -> IL_LUMINANCE [] c = 3 -> IL_RGB [] OTHER -> IL_RGBA, IF u = 1 THEN IL_UNSIGNED_BYTE ELSE IL_UNSIGNED_SHORT,
                                         IL_ORIGIN_UPPER_LEFT, IF u = 2 THEN Swapped2(d) ELSE d))

(* -------------------------------------------------------------------- SUN -- *)
\* n bytes with runs from i on
RECURSIVE SunRuns(_, _, _, _)
SunRuns(b, i, n, acc) ==
    IF Len(acc) >= n THEN [ok |-> Len(acc) = n, d |-> acc, i |-> i]
    ELSE IF ~Has(b, i, 1) THEN [ok |-> FALSE, d |-> acc, i |-> i]
    ELSE IF Oct(b, i) # 128 THEN SunRuns(b, i + 1, n, Append(acc, Oct(b, i)))
    ELSE IF ~Has(b, i, 2) THEN [ok |-> FALSE, d |-> acc, i |-> i]
    ELSE IF Oct(b, i + 1) = 0 THEN SunRuns(b, i + 2, n, Append(acc, 128))
    ELSE IF ~Has(b, i, 3) THEN [ok |-> FALSE, d |-> acc, i |-> i]
    ELSE SunRuns(b, i + 3, n, acc \o [k \in 1..(Oct(b, i + 1) + 1) |-> Oct(b, i + 2)])
DecodeSun(b) ==
    LET w == M32(b, 4) h == M32(b, 8) bits == M32(b, 12) ty == M32(b, 20) mt == M32(b, 24) ml == M32(b, 28)
        i == 32 + ml
        row == ((w * bits + 15) \div 16) * 2                 \* rows are padded to 16 bits
        r == IF ty = 2 THEN SunRuns(b, i, row * h, <<>>) ELSE [ok |-> Len(b) = i + row * h, d |-> Cut(b, i, row * h), i |-> Len(b)]
        pal == IF bits = 1 /\ ml = 0 THEN <<255, 255, 255, 0, 0, 0>> ELSE Woven(Cut(b, 32, ml), 3, ml \div 3, 1)
        f == IF ty = 3 THEN IL_RGB ELSE IL_BGR
    IN IF Len(b) < 32 \/ Cut(b, 0, 4) # <<89, 166, 106, 149>> \/ w \notin 1..64 \/ h \notin 1..64 \/ bits \notin {1, 8, 24, 32} \/ ty \notin {1, 2, 3} \/ (ty = 2 /\ bits \in {1, 32}) \/ mt \notin {0, 1} THEN NoDecode
       ELSE IF ml < 0 \/ ml > 768 \/ ml % 3 # 0 \/ (mt = 0) # (ml = 0) \/ (bits = 1 /\ ml \notin {0, 6}) \/ (bits > 8 /\ ml # 0) \/ ~Has(b, i, 1) THEN NoDecode
       ELSE IF ~r.ok \/ r.i # Len(b) THEN NoDecode
       ELSE Decodes(CASE bits = 1 -> Mapped(w, h, IL_ORIGIN_UPPER_LEFT, Packed(r.d, 0, 1, w, row, h), IL_PAL_RGB24, pal)
                      [] bits = 8 /\ mt = 0 -> Pixels(w, h, IL_LUMINANCE, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT, Strided(r.d, 0, w, row, h))
                      [] bits = 8 -> Mapped(w, h, IL_ORIGIN_UPPER_LEFT, Strided(r.d, 0, w, row, h), IL_PAL_RGB24, pal)
                      [] bits = 24 -> Pixels(w, h, f, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT, Strided(r.d, 0, 3 * w, row, h))
                      [] OTHER -> Pixels(w, h, f, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT, [q \in 1..(w * h * 3) |-> r.d[((q - 1) \div 3) * 4 + ((q - 1) % 3) + 2]]))

(* ------------------------------------------------------------------- WBMP -- *)
Multi(b, i) == IF ~Has(b, i, 1) THEN [ok |-> FALSE, v |-> 0, i |-> i] ELSE IF Oct(b, i) < 128 THEN [ok |-> TRUE, v |-> Oct(b, i), i |-> i + 1]
               ELSE IF ~Has(b, i, 2) \/ Oct(b, i + 1) > 127 THEN [ok |-> FALSE, v |-> 0, i |-> i] ELSE [ok |-> TRUE, v |-> (Oct(b, i) - 128) * 128 + Oct(b, i + 1), i |-> i + 2]
DecodeWbmp(b) ==
    LET W == Multi(b, 2) H == Multi(b, W.i) stride == (W.v + 7) \div 8 IN
    IF Len(b) < 5 \/ Oct(b, 0) # 0 \/ Oct(b, 1) # 0 \/ ~W.ok \/ ~H.ok \/ W.v \notin 1..300 \/ H.v \notin 1..300 THEN NoDecode
    ELSE IF Len(b) # H.i + stride * H.v THEN NoDecode
    ELSE Decodes(Pixels(W.v, H.v, IL_LUMINANCE, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT, [q \in 1..(W.v * H.v) |-> 255 * LBit(b, H.i + ((q - 1) \div W.v) * stride, (q - 1) % W.v)]))

(* -------------------------------------------------------------------- GIF -- *)
\* the data sub-blocks from i on, joined
RECURSIVE GifBlocks(_, _, _)
GifBlocks(b, i, acc) == IF ~Has(b, i, 1) THEN [ok |-> FALSE, d |-> acc, i |-> i]
                        ELSE IF Oct(b, i) = 0 THEN [ok |-> TRUE, d |-> acc, i |-> i + 1]
                        ELSE IF ~Has(b, i + 1, Oct(b, i)) THEN [ok |-> FALSE, d |-> acc, i |-> i]
                        ELSE GifBlocks(b, i + 1 + Oct(b, i), acc \o Cut(b, i + 1, Oct(b, i)))
\* LZW: bit position p, code size z, table t (strings of the codes above `end'), last string l
RECURSIVE Lzw(_, _, _, _, _, _, _, _)
Lzw(d, p, lit, z, t, l, n, acc) ==
    LET bad == [ok |-> FALSE, d |-> acc]
        clear == P2[lit + 1]
        code == BitsOf(d, 0, p, z)
        next == clear + 2 + Len(t)
        grow(k) == IF k < 4096 /\ z < 12 /\ k = P2[z + 1] THEN z + 1 ELSE z
    IN IF p + z > 8 * Len(d) THEN bad
       ELSE IF code = clear THEN Lzw(d, p + z, lit, lit + 1, <<>>, <<>>, n, acc)
       ELSE IF code = clear + 1 THEN [ok |-> Len(acc) = n, d |-> acc]
       ELSE IF l = <<>> THEN (IF code >= clear THEN bad ELSE Lzw(d, p + z, lit, z, t, <<code>>, n, Append(acc, code)))
       ELSE IF code > next \/ next > 4095 THEN bad
       ELSE LET s == IF code < clear THEN <<code>> ELSE IF code = next THEN Append(l, l[1]) ELSE t[code - clear - 1]
            IN Lzw(d, p + z, lit, grow(next + 1), Append(t, Append(l, s[1])), s, n, acc \o s)
\* row of the interlaced image in which row y is stored
GifRow(y, h) == LET a == (h + 7) \div 8 b2 == (h + 3) \div 8 c == (h + 1) \div 4 IN
    IF y % 8 = 0 THEN y \div 8 ELSE IF y % 8 = 4 THEN a + (y \div 8) ELSE IF y % 4 = 2 THEN a + b2 + (y \div 4) ELSE a + b2 + c + (y \div 2)
\* The images from i on; gp: global palette, W, H: the screen, gc: graphic control [u, tr, du] that comes before the next image
RECURSIVE GifImages(_, _, _, _, _, _, _)
GifImages(b, i, gp, W, H, gc, seen) ==
    LET bad == [ok |-> FALSE, n |-> <<>>] IN
    IF ~Has(b, i, 1) THEN bad
    ELSE IF Oct(b, i) = 59 THEN [ok |-> i + 1 = Len(b) /\ ~gc.u, n |-> <<>>]
    ELSE IF Oct(b, i) = 33
         THEN (IF ~Has(b, i, 3) THEN bad
               ELSE IF Oct(b, i + 1) = 249
                    THEN (IF ~Has(b, i, 8) THEN bad ELSE IF Oct(b, i + 2) # 4 \/ Oct(b, i + 7) # 0 \/ Oct(b, i + 3) \notin {0, 1} THEN bad
                          ELSE GifImages(b, i + 8, gp, W, H, [u |-> TRUE, tr |-> IF Oct(b, i + 3) = 1 THEN Oct(b, i + 6) ELSE -1, du |-> 10 * L16(b, i + 4)], seen))
                    ELSE LET r == GifBlocks(b, i + 2, <<>>) IN IF ~r.ok THEN bad ELSE GifImages(b, r.i, gp, W, H, gc, seen))
    ELSE IF Oct(b, i) # 44 \/ ~Has(b, i, 11) THEN bad
    ELSE LET info == Oct(b, i + 9)
             own == info > 127
             plen == IF own THEN 3 * P2[(info % 8) + 2] ELSE 0
             j == i + 10 + plen
             lit == Oct(b, j)
             r == GifBlocks(b, j + 1, <<>>)
             z == Lzw(r.d, 0, lit, lit + 1, <<>>, <<>>, W * H, <<>>)
             pal3 == IF own THEN Cut(b, i + 10, plen) ELSE gp
             pal == IF gc.tr < 0 THEN pal3 ELSE [q \in 1..(4 * (Len(pal3) \div 3)) |-> LET k == (q - 1) \div 4 c == (q - 1) % 4 IN IF c = 3 THEN (IF k = gc.tr THEN 0 ELSE 255) ELSE pal3[3 * k + c + 1]]
             px == IF (info \div 64) % 2 = 1 THEN [q \in 1..(W * H) |-> z.d[GifRow((q - 1) \div W, H) * W + ((q - 1) % W) + 1]] ELSE z.d
             rest == GifImages(b, r.i, gp, W, H, [u |-> FALSE, tr |-> -1, du |-> 0], (IF own THEN seen ELSE 0) + (Len(pal3) \div 3))
         IN IF L16(b, i + 1) # 0 \/ L16(b, i + 3) # 0 \/ L16(b, i + 5) # W \/ L16(b, i + 7) # H \/ (~own /\ gp = <<>>) \/ ~Has(b, j, 2) THEN bad
            ELSE IF lit \notin 2..8 \/ ~r.ok \/ (info \div 8) % 8 # 0 THEN bad
            ELSE IF ~z.ok \/ gc.tr >= Len(pal3) \div 3 \/ ~rest.ok \/ seen + (Len(pal3) \div 3) > 256 THEN bad       \* (seen: colours of the image before)
            ELSE LET n == Mapped(W, H, IL_ORIGIN_UPPER_LEFT, px, IF gc.tr < 0 THEN IL_PAL_RGB24 ELSE IL_PAL_RGBA32, pal)
                     \* a later image may have got a palette that begins with those before it
                     n1 == IF own /\ seen > 0 THEN [n EXCEPT !.pt = -9, !.pal = Wild, !.dat = <<-7>> \o [q \in 1..(3 * W * H) |-> pal3[3 * px[((q - 1) \div 3) + 1] + ((q - 1) % 3) + 1]]] ELSE n
                 IN [ok |-> TRUE, n |-> << [n1 EXCEPT !.du = gc.du, !.N = rest.n] >>]
DecodeGif(b) ==
    LET W == L16(b, 6) H == L16(b, 8) info == Oct(b, 10)
        plen == IF info > 127 THEN 3 * P2[(info % 8) + 2] ELSE 0
        r == GifImages(b, 13 + plen, Cut(b, 13, plen), W, H, [u |-> FALSE, tr |-> -1, du |-> 0], 0)
    IN IF Len(b) < 20 THEN NoDecode
       ELSE IF Cut(b, 0, 6) \notin { <<71, 73, 70, 56, 57, 97>>, <<71, 73, 70, 56, 55, 97>> } \/ W \notin 1..64 \/ H \notin 1..64 \/ ~Has(b, 13, plen) THEN NoDecode
       ELSE IF ~r.ok THEN NoDecode ELSE IF r.n = <<>> THEN NoDecode ELSE Decodes(r.n[1])

(* -------------------------------------------------------------------- PNG -- *)
\* (image data in stored blocks only)
Xor16(a, b) == a ^^ b
CrcTable == [k \in 0..255 |->
    LET RECURSIVE go(_, _, _)
        go(hi, lo, n) == IF n = 0 THEN <<hi, lo>>
                         ELSE LET h2 == hi \div 2 l2 == (lo \div 2) + 32768 * (hi % 2) IN
                              IF lo % 2 = 1 THEN go(Xor16(h2, 60856), Xor16(l2, 33568), n - 1) ELSE go(h2, l2, n - 1)
    IN go(0, k, 8)]
RECURSIVE CrcOf(_, _, _, _, _)
CrcOf(b, i, n, hi, lo) ==
    IF n = 0 THEN <<65535 - hi, 65535 - lo>>
    ELSE LET t == CrcTable[Xor16(lo % 256, Oct(b, i))] IN CrcOf(b, i + 1, n - 1, Xor16(hi \div 256, t[1]), Xor16((lo \div 256) + 256 * (hi % 256), t[2]))
\* Chunks from i on: [ok, plte, trns, idat, done] ; st: 0 before, 1 in, 2 after the image data
RECURSIVE PngChunks(_, _, _)
PngChunks(b, i, c) ==
    LET n == M32(b, i)
        ty == Cut(b, i + 4, 4)
        next(d) == PngChunks(b, i + 12 + n, d)
        bad == [c EXCEPT !.ok = FALSE]
    IN IF ~Has(b, i, 12) THEN bad
       ELSE IF n < 0 \/ n > 100000 THEN bad
       ELSE IF ~Has(b, i, 12 + n) THEN bad
       ELSE IF CrcOf(b, i + 4, n + 4, 65535, 65535) # << M16(b, i + 8 + n), M16(b, i + 10 + n) >> THEN bad
       ELSE IF ty = <<80, 76, 84, 69>> THEN (IF c.st # 0 \/ c.plte # <<>> \/ c.trns # <<>> \/ n = 0 \/ n % 3 # 0 \/ n > 768 THEN bad ELSE next([c EXCEPT !.plte = Cut(b, i + 8, n)]))
       ELSE IF ty = <<116, 82, 78, 83>> THEN (IF c.st # 0 \/ c.trns # <<>> \/ n = 0 THEN bad ELSE next([c EXCEPT !.trns = Cut(b, i + 8, n)]))
       ELSE IF ty = <<73, 68, 65, 84>> THEN (IF c.st = 2 THEN bad ELSE next([c EXCEPT !.st = 1, !.idat = c.idat \o Cut(b, i + 8, n)]))
       ELSE IF ty = <<73, 69, 78, 68>> THEN [c EXCEPT !.ok = c.st # 0 /\ n = 0 /\ i + 12 = Len(b)]
       ELSE IF ty = <<116, 69, 88, 116>> THEN next(IF c.st = 1 THEN [c EXCEPT !.st = 2] ELSE c)         \* a remark
       ELSE bad
\* stored blocks from i on
RECURSIVE Stored(_, _, _)
Stored(d, i, acc) ==
    LET bad == [ok |-> FALSE, d |-> acc] IN
    IF ~Has(d, i, 5) THEN bad
    ELSE LET n == L16(d, i + 1) IN
         IF Oct(d, i) \notin {0, 1} \/ L16(d, i + 3) # 65535 - n \/ ~Has(d, i + 5, n) THEN bad
         ELSE LET acc2 == acc \o Cut(d, i + 5, n) IN
              IF Oct(d, i) = 0 THEN Stored(d, i + 5 + n, acc2)
              ELSE [ok |-> i + 5 + n + 4 = Len(d) /\ << M16(d, i + 5 + n), M16(d, i + 7 + n) >> =
                           LET RECURSIVE ad(_, _, _)
                               ad(k, x, y) == IF k > Len(acc2) THEN <<y, x>> ELSE LET x2 == (x + acc2[k]) % 65521 IN ad(k + 1, x2, (y + x2) % 65521)
                           IN ad(1, 1, 0), d |-> acc2]
Inflated(d) == IF ~Has(d, 0, 2) THEN [ok |-> FALSE, d |-> <<>>] ELSE IF Oct(d, 0) # 120 \/ Oct(d, 1) \notin {1, 94, 156, 218} THEN [ok |-> FALSE, d |-> <<>>] ELSE Stored(d, 2, <<>>)
Paeth(a, b, c) == LET p == a + b - c pa == Abs(p - a) pb == Abs(p - b) pc == Abs(p - c) IN IF pa <= pb /\ pa <= pc THEN a ELSE IF pb <= pc THEN b ELSE c
\* one row of n bytes without its filter; u: bytes per pixel, prev: the row above
RECURSIVE Unfiltered(_, _, _, _, _, _, _)
Unfiltered(d, i, ft, n, u, prev, row) ==
    IF Len(row) = n THEN row
    ELSE LET k == Len(row) a == IF k >= u THEN row[k - u + 1] ELSE 0 up == prev[k + 1] ul == IF k >= u THEN prev[k - u + 1] ELSE 0
             p == CASE ft = 0 -> 0 [] ft = 1 -> a [] ft = 2 -> up [] ft = 3 -> (a + up) \div 2 [] OTHER -> Paeth(a, up, ul)
         IN Unfiltered(d, i, ft, n, u, prev, Append(row, (Oct(d, i + k) + p) % 256))
\* h rows of n bytes from i: the plain rows, or <<-1>> for an unknown filter
RECURSIVE PngRows(_, _, _, _, _, _, _)
PngRows(d, i, n, u, h, prev, acc) ==
    IF h = 0 THEN acc
    ELSE IF Oct(d, i) > 4 THEN <<-1>>
    ELSE LET r == Unfiltered(d, i + 1, Oct(d, i), n, u, prev, <<>>) IN PngRows(d, i + 1 + n, n, u, h - 1, r, acc \o r)
Zeros(n) == [k \in 1..n |-> 0]
AdamX == <<0, 4, 0, 2, 0, 1, 0>>
AdamY == <<0, 0, 4, 0, 2, 0, 1>>
AdamDx == <<8, 8, 4, 4, 2, 2, 1>>
AdamDy == <<8, 8, 8, 4, 4, 2, 2>>
\* the pass of a pixel
Adam(x, y) == CASE y % 2 = 1 -> 7 [] x % 2 = 1 -> 6 [] y % 4 = 2 -> 5 [] x % 4 = 2 -> 4 [] y % 8 = 4 -> 3 [] x % 8 = 4 -> 2 [] OTHER -> 1
PassW(w, p) == (w - AdamX[p] + AdamDx[p] - 1) \div AdamDx[p]
PassH(h, p) == (h - AdamY[p] + AdamDy[p] - 1) \div AdamDy[p]
RowLen(w, bits) == (w * bits + 7) \div 8
RECURSIVE PngPasses(_, _, _, _, _, _)
PngPasses(d, i, p, w, h, bits) ==
    IF p > 7 THEN [ok |-> i = Len(d), rows |-> <<>>]
    ELSE LET pw == PassW(w, p) ph == PassH(h, p) n == RowLen(pw, bits) len == IF pw = 0 \/ ph = 0 THEN 0 ELSE ph * (n + 1) IN
         IF ~Has(d, i, len) THEN [ok |-> FALSE, rows |-> <<>>]
         ELSE LET r == IF len = 0 THEN <<>> ELSE PngRows(d, i, n, IF bits < 8 THEN 1 ELSE bits \div 8, ph, Zeros(n), <<>>)
                  rest == PngPasses(d, i + len, p + 1, w, h, bits)
              IN [ok |-> rest.ok /\ r # <<-1>>, rows |-> <<r>> \o rest.rows]
\* the k-th byte (from 0) of pixel q, or its value if it is less than a byte, of rows of width w
PngSample(r, q, w, bits, k) ==
    IF bits >= 8 THEN r[q * (bits \div 8) + k + 1]
    ELSE LET x == q % w y == q \div w IN (r[y * RowLen(w, bits) + ((x * bits) \div 8) + 1] \div P2[8 - bits - ((x * bits) % 8) + 1]) % P2[bits + 1]
DecodePng(b) ==
    LET w == M32(b, 16) h == M32(b, 20) bd == Oct(b, 24) ct == Oct(b, 25) il == Oct(b, 28)
        chans == CASE ct = 0 -> 1 [] ct = 2 -> 3 [] ct = 3 -> 1 [] ct = 4 -> 2 [] OTHER -> 4
        bits == bd * chans
        c == PngChunks(b, 33, [ok |-> TRUE, plte |-> <<>>, trns |-> <<>>, idat |-> <<>>, st |-> 0])
        z == Inflated(c.idat)
        u == IF bits < 8 THEN 1 ELSE bits \div 8
        plain == IF Len(z.d) # h * (RowLen(w, bits) + 1) THEN <<-1>> ELSE PngRows(z.d, 0, RowLen(w, bits), u, h, Zeros(RowLen(w, bits)), <<>>)
        passes == PngPasses(z.d, 0, 1, w, h, bits)
        raw == IF il = 0 THEN [q \in 1..(w * h * u) |-> PngSample(plain, (q - 1) \div u, w, bits, (q - 1) % u)]
               ELSE [q \in 1..(w * h * u) |-> LET k == (q - 1) \div u x == k % w y == k \div w p == Adam(x, y) IN
                        PngSample(passes.rows[p], ((y - AdamY[p]) \div AdamDy[p]) * PassW(w, p) + ((x - AdamX[p]) \div AdamDx[p]), PassW(w, p), bits, (q - 1) % u)]
        \* 16-bit channels have their upper byte first in the file
        s8 == IF bd = 16 THEN Swapped2(raw) ELSE raw
        grey == CASE bd = 1 -> 255 [] bd = 2 -> 85 [] bd = 4 -> 17 [] OTHER -> 1
        px == IF ct = 0 /\ bd < 8 THEN [q \in 1..Len(s8) |-> s8[q] * grey] ELSE s8
        t == IF bd = 16 THEN IL_UNSIGNED_SHORT ELSE IL_UNSIGNED_BYTE
        bpc == IF bd = 16 THEN 2 ELSE 1
        \* the colour that is transparent, as its bytes in the file
        key == IF bd = 16 THEN c.trns ELSE [k \in 1..(Len(c.trns) \div 2) |-> c.trns[2 * k]]
        withAlpha == [q \in 1..(w * h * (u + bpc)) |-> LET k == (q - 1) \div (u + bpc) j == (q - 1) % (u + bpc) IN
                        IF j < u THEN px[k * u + j + 1] ELSE IF \A m \in 1..u : raw[k * u + m] = key[m] THEN 0 ELSE 255]
        cols == Len(c.plte) \div 3
        pal == IF c.trns = <<>> THEN c.plte ELSE [q \in 1..(4 * cols) |-> LET k == (q - 1) \div 4 j == (q - 1) % 4 IN IF j < 3 THEN c.plte[3 * k + j + 1] ELSE IF k < Len(c.trns) THEN c.trns[k + 1] ELSE 255]
        form == CASE ct = 0 -> IL_LUMINANCE [] ct = 2 -> IL_RGB [] ct = 4 -> IL_LUMINANCE_ALPHA [] OTHER -> IL_RGBA
    IN IF ~Has(b, 0, 57) THEN NoDecode
       ELSE IF Cut(b, 0, 16) # <<137, 80, 78, 71, 13, 10, 26, 10, 0, 0, 0, 13, 73, 72, 68, 82>> \/ w \notin 1..64 \/ h \notin 1..64 THEN NoDecode
       ELSE IF Oct(b, 26) # 0 \/ Oct(b, 27) # 0 \/ il > 1 \/ <<ct, bd>> \notin {<<0, 1>>, <<0, 2>>, <<0, 4>>, <<0, 8>>, <<0, 16>>, <<2, 8>>, <<2, 16>>, <<3, 1>>, <<3, 2>>, <<3, 4>>, <<3, 8>>, <<4, 8>>, <<4, 16>>, <<6, 8>>, <<6, 16>>} THEN NoDecode
       ELSE IF CrcOf(b, 12, 17, 65535, 65535) # << M16(b, 29), M16(b, 31) >> THEN NoDecode
       ELSE IF ~c.ok THEN NoDecode
       ELSE IF ~z.ok \/ (ct = 3 /\ (cols = 0 \/ cols > P2[bd + 1] \/ Len(c.trns) > cols)) \/ (ct \in {0, 4, 2, 6} /\ c.plte # <<>>) \/ (ct > 3 /\ c.trns # <<>>) THEN NoDecode
       ELSE IF c.trns # <<>> /\ ((ct = 0 /\ Len(c.trns) # 2) \/ (ct = 2 /\ Len(c.trns) # 6)) THEN NoDecode
       ELSE IF IF il = 0 THEN plain = <<-1>> ELSE ~passes.ok THEN NoDecode
       ELSE IF ct = 3 THEN (IF \E q \in 1..Len(px) : px[q] >= cols THEN NoDecode ELSE Decodes(Mapped(w, h, IL_ORIGIN_UPPER_LEFT, px, IF c.trns = <<>> THEN IL_PAL_RGB24 ELSE IL_PAL_RGBA32, pal)))
       ELSE IF c.trns # <<>> THEN (IF bd < 8 \/ (bd = 8 /\ \E k \in 1..(Len(c.trns) \div 2) : c.trns[2 * k - 1] # 0) THEN NoDecode
                                   ELSE Decodes(Pixels(w, h, IF ct = 0 THEN IL_LUMINANCE_ALPHA ELSE IL_RGBA, t, IL_ORIGIN_UPPER_LEFT, withAlpha)))
       ELSE Decodes(Pixels(w, h, form, t, IL_ORIGIN_UPPER_LEFT, px))

(* ------------------------------------------------------------------- TIFF -- *)
T16(b, i, be) == IF be THEN M16(b, i) ELSE L16(b, i)
T32(b, i, be) == IF be THEN M32(b, i) ELSE L32(b, i)
\* the entry of a tag in the directory at i, or -1
TagAt(b, i, be, t) == LET S == {k \in 0..(T16(b, i, be) - 1) : T16(b, i + 2 + 12 * k, be) = t} IN IF S = {} THEN -1 ELSE i + 2 + 12 * (CHOOSE k \in S : TRUE)
\* its numbers; <<>> if they are out of reach or of another kind
TagNums(b, i, be, t, dflt) ==
    LET e == TagAt(b, i, be, t) IN
    IF e < 0 THEN dflt
    ELSE LET ty == T16(b, e + 2, be) n == T32(b, e + 4, be) u == IF ty = 3 THEN 2 ELSE 4 p == IF n * u <= 4 THEN e + 8 ELSE T32(b, e + 8, be) IN
         IF ty \notin {3, 4} \/ n \notin 1..800 THEN <<>>
         ELSE IF ~Has(b, p, n * u) THEN <<>>
         ELSE [k \in 1..n |-> IF u = 2 THEN T16(b, p + 2 * (k - 1), be) ELSE T32(b, p + 4 * (k - 1), be)]
TiffTags == {254, 256, 257, 258, 259, 262, 266, 273, 274, 277, 278, 279, 284, 296, 320, 338}
\* The strips, one after the other: strip k holds rows of n bytes
RECURSIVE TiffStrips(_, _, _, _, _, _, _, _)
TiffStrips(b, off, cnt, rps, h, n, comp, acc) ==
    IF h <= 0 THEN [ok |-> off = <<>>, d |-> acc]
    ELSE IF off = <<>> \/ cnt = <<>> THEN [ok |-> FALSE, d |-> acc]
    ELSE LET rows == IF h < rps THEN h ELSE rps IN
         IF ~Has(b, Head(off), Head(cnt)) THEN [ok |-> FALSE, d |-> acc]
         ELSE LET d == Cut(b, Head(off), Head(cnt))
                  r == IF comp = 1 THEN [ok |-> Len(d) = rows * n, d |-> d] ELSE PackBits(d, 0, Len(d), rows * n, <<>>)
              IN IF ~r.ok THEN [ok |-> FALSE, d |-> acc] ELSE TiffStrips(b, Tail(off), Tail(cnt), rps, h - rows, n, comp, acc \o r.d)
TiffPage(b, i, be) ==
    LET one(t, dflt) == LET v == TagNums(b, i, be, t, <<dflt>>) IN IF Len(v) = 1 THEN v[1] ELSE -1
        w == one(256, -1) h == one(257, -1) comp == one(259, 1) ph == one(262, -1) spp == one(277, 1) planar == one(284, 1) ori == one(274, 1)
        bitsq == TagNums(b, i, be, 258, <<1>>)
        bits == IF bitsq = <<>> THEN -1 ELSE bitsq[1]
        ex == TagNums(b, i, be, 338, <<>>)
        off == TagNums(b, i, be, 273, <<>>) cnt == TagNums(b, i, be, 279, <<>>)
        rps0 == TagNums(b, i, be, 278, <<h>>)
        rps == IF Len(rps0) # 1 THEN -1 ELSE IF rps0[1] < 0 \/ rps0[1] > h THEN h ELSE rps0[1]
        n == RowLen(w, bits * spp)
        S == TiffStrips(b, off, cnt, rps, h, n, comp, <<>>)
        cmap == TagNums(b, i, be, 320, <<>>)
        cols == P2[bits + 1]
        pal == [q \in 1..(3 * cols) |-> cmap[((q - 1) % 3) * cols + ((q - 1) \div 3) + 1] \div 256]
        px == CASE bits = 16 -> IF be THEN Swapped2(S.d) ELSE S.d
                [] bits = 8 -> S.d
                [] OTHER -> Packed(S.d, 0, bits, w, n, h)
        inv == CASE bits = 1 -> [q \in 1..Len(px) |-> IF ph = 3 THEN px[q] ELSE IF (ph = 0) = (px[q] = 0) THEN 255 ELSE 0]
                 [] ph = 0 -> [q \in 1..Len(px) |-> 255 - px[q]]
                 [] OTHER -> px
        o == IF ori = 1 THEN IL_ORIGIN_UPPER_LEFT ELSE IL_ORIGIN_LOWER_LEFT
        t == IF bits = 16 THEN IL_UNSIGNED_SHORT ELSE IL_UNSIGNED_BYTE
        up(d, u) == IF ori = 4 THEN d ELSE [q \in 1..Len(d) |-> LET k == (q - 1) \div u IN d[((h - 1 - (k \div w)) * w + (k % w)) * u + ((q - 1) % u) + 1]]
    IN IF {T16(b, i + 2 + 12 * k, be) : k \in 0..(T16(b, i, be) - 1)} \ TiffTags # {} THEN NoDecode
       ELSE IF w \notin 1..64 \/ h \notin 1..64 \/ comp \notin {1, 32773} \/ planar # 1 \/ ori \notin {1, 4} \/ rps < 1 \/ spp \notin {1, 3, 4} \/ \E k \in 1..Len(bitsq) : bitsq[k] # bits THEN NoDecode
       ELSE IF Len(bitsq) # spp \/ <<spp, ph, bits>> \notin {<<1, 0, 1>>, <<1, 1, 1>>, <<1, 3, 1>>, <<1, 3, 4>>, <<1, 0, 8>>, <<1, 1, 8>>, <<1, 3, 8>>, <<1, 0, 16>>, <<1, 1, 16>>, <<3, 2, 8>>, <<3, 2, 16>>, <<4, 2, 8>>} THEN NoDecode
       ELSE IF (spp = 4) # (ex # <<>>) \/ (spp = 4 /\ ex # <<1>> /\ ex # <<0>>) \/ ~S.ok \/ (ph = 3 /\ Len(cmap) # 3 * cols) THEN NoDecode
       ELSE IF spp = 4 THEN Decodes(Pixels(w, h, IL_RGBA, IL_UNSIGNED_BYTE, IL_ORIGIN_LOWER_LEFT, up(px, 4)))
       ELSE IF spp = 3 THEN Decodes(Pixels(w, h, IL_RGB, t, o, px))
       ELSE IF ph = 3 /\ bits = 4 THEN Decodes(Pixels(w, h, IL_RGB, IL_UNSIGNED_BYTE, IL_ORIGIN_LOWER_LEFT, up([q \in 1..(3 * w * h) |-> pal[3 * px[((q - 1) \div 3) + 1] + ((q - 1) % 3) + 1]], 3)))
       ELSE IF ph = 3 THEN Decodes(Mapped(w, h, o, inv, IL_PAL_RGB24, pal))
       ELSE Decodes(Pixels(w, h, IL_LUMINANCE, t, o, inv))
RECURSIVE TiffPages(_, _, _, _)
TiffPages(b, i, be, left) ==
    IF i = 0 THEN [ok |-> TRUE, n |-> <<>>]
    ELSE IF left = 0 \/ ~Has(b, i, 2) THEN [ok |-> FALSE, n |-> <<>>]
    ELSE IF ~Has(b, i, 6 + 12 * T16(b, i, be)) THEN [ok |-> FALSE, n |-> <<>>]
    ELSE LET p == TiffPage(b, i, be) IN
         IF ~p.ok THEN [ok |-> FALSE, n |-> <<>>]
         ELSE LET r == TiffPages(b, T32(b, i + 2 + 12 * T16(b, i, be), be), be, left - 1) IN [ok |-> r.ok, n |-> << [p.n EXCEPT !.N = r.n] >>]
DecodeTif(b) ==
    IF ~Has(b, 0, 8) THEN NoDecode
    ELSE IF Cut(b, 0, 4) \notin { <<73, 73, 42, 0>>, <<77, 77, 0, 42>> } THEN NoDecode
    ELSE LET be == Oct(b, 0) = 77 r == TiffPages(b, T32(b, 4, be), be, 4) IN IF ~r.ok \/ r.n = <<>> THEN NoDecode ELSE Decodes(r.n[1])

(* -------------------------------------------- PIX, PXR, FTX, WAL, CUT, PIC -- *)
RECURSIVE PixRuns(_, _, _, _)
PixRuns(b, i, n, acc) ==
    IF Len(acc) = n THEN [ok |-> i = Len(b), d |-> acc]
    ELSE IF Len(acc) > n \/ ~Has(b, i, 4) THEN [ok |-> FALSE, d |-> acc]
    ELSE LET k == Oct(b, i) IN IF k = 0 THEN [ok |-> FALSE, d |-> acc] ELSE PixRuns(b, i + 4, n, acc \o [q \in 1..(3 * k) |-> Oct(b, i + 1 + ((q - 1) % 3))])
DecodePix(b) ==
    IF ~Has(b, 0, 14) THEN NoDecode
    ELSE LET w == M16(b, 0) h == M16(b, 2) IN
         IF w \notin 1..64 \/ h \notin 1..64 \/ M16(b, 8) # 24 THEN NoDecode
         ELSE LET r == PixRuns(b, 10, w * h * 3, <<>>) IN IF ~r.ok THEN NoDecode ELSE Decodes(Pixels(w, h, IL_BGR, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT, r.d))
DecodePxr(b) ==
    IF ~Has(b, 0, 1025) THEN NoDecode
    ELSE LET h == L16(b, 416) w == L16(b, 418) k == Oct(b, 424)
             u == CASE k = 8 -> 1 [] k = 14 -> 3 [] k = 15 -> 4 [] OTHER -> 0
             f == CASE k = 8 -> IL_LUMINANCE [] k = 14 -> IL_RGB [] OTHER -> IL_RGBA
         IN IF w \notin 1..64 \/ h \notin 1..64 \/ u = 0 THEN NoDecode
            ELSE IF Len(b) # 1024 + w * h * u THEN NoDecode
            ELSE Decodes(Pixels(w, h, f, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT, Cut(b, 1024, w * h * u)))
DecodeFtx(b) ==
    IF ~Has(b, 0, 16) THEN NoDecode
    ELSE LET w == L32(b, 0) h == L32(b, 4) IN
         IF w \notin 1..64 \/ h \notin 1..64 \/ L32(b, 8) \notin {0, 1} THEN NoDecode
         ELSE IF Len(b) # 12 + 4 * w * h THEN NoDecode
         ELSE Decodes(Pixels(w, h, IL_RGBA, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT, Cut(b, 12, 4 * w * h)))
\* the palette of all Quake 2 textures
QuakePal == <<
    0, 0, 0, 15, 15, 15, 31, 31, 31, 47, 47, 47, 63, 63, 63, 75, 75, 75, 91, 91, 91, 107, 107, 107, 123, 123, 123, 139, 139, 139, 155, 155, 155, 171, 171, 171, 187, 187, 187, 203, 203, 203, 219, 219, 219, 235, 235, 235,
    99, 75, 35, 91, 67, 31, 83, 63, 31, 79, 59, 27, 71, 55, 27, 63, 47, 23, 59, 43, 23, 51, 39, 19, 47, 35, 19, 43, 31, 19, 39, 27, 15, 35, 23, 15, 27, 19, 11, 23, 15, 11, 19, 15, 7, 15, 11, 7,
    95, 95, 111, 91, 91, 103, 91, 83, 95, 87, 79, 91, 83, 75, 83, 79, 71, 75, 71, 63, 67, 63, 59, 59, 59, 55, 55, 51, 47, 47, 47, 43, 43, 39, 39, 39, 35, 35, 35, 27, 27, 27, 23, 23, 23, 19, 19, 19,
    143, 119, 83, 123, 99, 67, 115, 91, 59, 103, 79, 47, 207, 151, 75, 167, 123, 59, 139, 103, 47, 111, 83, 39, 235, 159, 39, 203, 139, 35, 175, 119, 31, 147, 99, 27, 119, 79, 23, 91, 59, 15, 63, 39, 11, 35, 23, 7,
    167, 59, 43, 159, 47, 35, 151, 43, 27, 139, 39, 19, 127, 31, 15, 115, 23, 11, 103, 23, 7, 87, 19, 0, 75, 15, 0, 67, 15, 0, 59, 15, 0, 51, 11, 0, 43, 11, 0, 35, 11, 0, 27, 7, 0, 19, 7, 0,
    123, 95, 75, 115, 87, 67, 107, 83, 63, 103, 79, 59, 95, 71, 55, 87, 67, 51, 83, 63, 47, 75, 55, 43, 67, 51, 39, 63, 47, 35, 55, 39, 27, 47, 35, 23, 39, 27, 19, 31, 23, 15, 23, 15, 11, 15, 11, 7,
    111, 59, 23, 95, 55, 23, 83, 47, 23, 67, 43, 23, 55, 35, 19, 39, 27, 15, 27, 19, 11, 15, 11, 7, 179, 91, 79, 191, 123, 111, 203, 155, 147, 215, 187, 183, 203, 215, 223, 179, 199, 211, 159, 183, 195, 135, 167, 183,
    115, 151, 167, 91, 135, 155, 71, 119, 139, 47, 103, 127, 23, 83, 111, 19, 75, 103, 15, 67, 91, 11, 63, 83, 7, 55, 75, 7, 47, 63, 7, 39, 51, 0, 31, 43, 0, 23, 31, 0, 15, 19, 0, 7, 11, 0, 0, 0,
    139, 87, 87, 131, 79, 79, 123, 71, 71, 115, 67, 67, 107, 59, 59, 99, 51, 51, 91, 47, 47, 87, 43, 43, 75, 35, 35, 63, 31, 31, 51, 27, 27, 43, 19, 19, 31, 15, 15, 19, 11, 11, 11, 7, 7, 0, 0, 0,
    151, 159, 123, 143, 151, 115, 135, 139, 107, 127, 131, 99, 119, 123, 95, 115, 115, 87, 107, 107, 79, 99, 99, 71, 91, 91, 67, 79, 79, 59, 67, 67, 51, 55, 55, 43, 47, 47, 35, 35, 35, 27, 23, 23, 19, 15, 15, 11,
    159, 75, 63, 147, 67, 55, 139, 59, 47, 127, 55, 39, 119, 47, 35, 107, 43, 27, 99, 35, 23, 87, 31, 19, 79, 27, 15, 67, 23, 11, 55, 19, 11, 43, 15, 7, 31, 11, 7, 23, 7, 0, 11, 0, 0, 0, 0, 0,
    119, 123, 207, 111, 115, 195, 103, 107, 183, 99, 99, 167, 91, 91, 155, 83, 87, 143, 75, 79, 127, 71, 71, 115, 63, 63, 103, 55, 55, 87, 47, 47, 75, 39, 39, 63, 35, 31, 47, 27, 23, 35, 19, 15, 23, 11, 7, 7,
    155, 171, 123, 143, 159, 111, 135, 151, 99, 123, 139, 87, 115, 131, 75, 103, 119, 67, 95, 111, 59, 87, 103, 51, 75, 91, 39, 63, 79, 27, 55, 67, 19, 47, 59, 11, 35, 47, 7, 27, 35, 0, 19, 23, 0, 11, 15, 0,
    0, 255, 0, 35, 231, 15, 63, 211, 27, 83, 187, 39, 95, 167, 47, 95, 143, 51, 95, 123, 51, 255, 255, 255, 255, 255, 211, 255, 255, 167, 255, 255, 127, 255, 255, 83, 255, 255, 39, 255, 235, 31, 255, 215, 23, 255, 191, 15,
    255, 171, 7, 255, 147, 0, 239, 127, 0, 227, 107, 0, 211, 87, 0, 199, 71, 0, 183, 59, 0, 171, 43, 0, 155, 31, 0, 143, 23, 0, 127, 15, 0, 115, 7, 0, 95, 0, 0, 71, 0, 0, 47, 0, 0, 27, 0, 0,
    239, 0, 0, 55, 55, 255, 255, 0, 0, 0, 0, 255, 43, 43, 35, 27, 27, 23, 19, 19, 15, 235, 151, 127, 195, 115, 83, 159, 87, 51, 123, 63, 27, 235, 211, 199, 199, 171, 155, 167, 139, 119, 135, 107, 87, 159, 91, 83 >>
DecodeWal(b) ==
    IF ~Has(b, 0, 101) THEN NoDecode
    ELSE LET w == L32(b, 32) h == L32(b, 36)
             lw(k) == IF w \div P2[k + 1] > 0 THEN w \div P2[k + 1] ELSE 1
             lh(k) == IF h \div P2[k + 1] > 0 THEN h \div P2[k + 1] ELSE 1
             lev(k) == Mapped(lw(k), lh(k), IL_ORIGIN_UPPER_LEFT, Cut(b, L32(b, 40 + 4 * k), lw(k) * lh(k)), IL_PAL_RGB24, QuakePal)
         IN IF w \notin 1..64 \/ h \notin 1..64 THEN NoDecode
            ELSE IF \E k \in 0..3 : ~Has(b, L32(b, 40 + 4 * k), lw(k) * lh(k)) \/ L32(b, 40 + 4 * k) < 100 THEN NoDecode
            ELSE Decodes([lev(0) EXCEPT !.M = << [lev(1) EXCEPT !.M = << [lev(2) EXCEPT !.M = << lev(3) >>] >>] >>])
\* h rows of n bytes: a length, runs, and a zero each
RECURSIVE CutLine(_, _, _, _)
CutLine(b, i, n, acc) ==
    LET bad == [ok |-> FALSE, d |-> acc, i |-> i] IN
    IF ~Has(b, i, 1) THEN bad
    ELSE LET k == Oct(b, i) IN
         IF k = 0 THEN [ok |-> n = 0, d |-> acc, i |-> i + 1]
         ELSE IF k > 128 THEN (IF k - 128 > n \/ ~Has(b, i, 2) THEN bad ELSE CutLine(b, i + 2, n - (k - 128), acc \o [q \in 1..(k - 128) |-> Oct(b, i + 1)]))
         ELSE IF k = 128 \/ k > n \/ ~Has(b, i + 1, k) THEN bad
         ELSE CutLine(b, i + 1 + k, n - k, acc \o Cut(b, i + 1, k))
RECURSIVE CutLines(_, _, _, _, _)
CutLines(b, i, n, h, acc) ==
    IF h = 0 THEN [ok |-> i = Len(b), d |-> acc]
    ELSE IF ~Has(b, i, 3) THEN [ok |-> FALSE, d |-> acc]
    ELSE LET r == CutLine(b, i + 2, n, <<>>) IN IF ~r.ok \/ r.i # i + 2 + L16(b, i) THEN [ok |-> FALSE, d |-> acc] ELSE CutLines(b, r.i, n, h - 1, acc \o r.d)
DecodeCut(b) ==
    IF ~Has(b, 0, 10) THEN NoDecode
    ELSE LET w == L16(b, 0) h == L16(b, 2) IN
         IF w \notin 1..64 \/ h \notin 1..64 \/ L16(b, 4) # 0 THEN NoDecode
         ELSE LET r == CutLines(b, 6, w, h, <<>>) IN IF ~r.ok THEN NoDecode ELSE Decodes(Pixels(w, h, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT, r.d))
\* Packets of a PIC: each [u: bytes, place of each, ty]; a row of one packet, as w groups of u bytes
RECURSIVE PicRow(_, _, _, _, _, _)
PicRow(b, i, ty, u, w, acc) ==
    LET bad == [ok |-> FALSE, d |-> acc, i |-> i]
        rep(j, m) == [q \in 1..(m * u) |-> Oct(b, j + ((q - 1) % u))]
        put(j, m, d) == IF m = 0 \/ m > w THEN bad ELSE PicRow(b, j, ty, u, w - m, acc \o d)
    IN IF w = 0 THEN [ok |-> TRUE, d |-> acc, i |-> i]
       ELSE IF ty = 0 THEN (IF ~Has(b, i, w * u) THEN bad ELSE [ok |-> TRUE, d |-> Cut(b, i, w * u), i |-> i + w * u])
       ELSE IF ~Has(b, i, 1 + u) THEN bad
       ELSE LET k == Oct(b, i) IN
            IF ty = 1 THEN (IF k > w THEN bad ELSE put(i + 1 + u, k, rep(i + 1, k)))
            ELSE IF k < 128 THEN (IF k + 1 > w \/ ~Has(b, i + 1, (k + 1) * u) THEN bad ELSE put(i + 1 + (k + 1) * u, k + 1, Cut(b, i + 1, (k + 1) * u)))
            ELSE IF k = 128 THEN (IF ~Has(b, i, 3 + u) THEN bad ELSE IF M16(b, i + 1) > w THEN bad ELSE put(i + 3 + u, M16(b, i + 1), rep(i + 3, M16(b, i + 1))))
            ELSE IF k - 127 > w THEN bad ELSE put(i + 1 + u, k - 127, rep(i + 1, k - 127))
RECURSIVE Places(_)
Places(q) == IF q = <<>> THEN <<>> ELSE q[1].at \o Places(Tail(q))
RECURSIVE PicPackets(_, _, _)
PicPackets(b, i, left) ==
    IF left = 0 \/ ~Has(b, i, 4) THEN [ok |-> FALSE, q |-> <<>>, i |-> i]
    ELSE LET m == Oct(b, i + 3)
             at == SelectSeq(<<0, 1, 2, 3>>, LAMBDA c : (m \div (CASE c = 0 -> 128 [] c = 1 -> 64 [] c = 2 -> 32 [] OTHER -> 16)) % 2 = 1)
             r == IF Oct(b, i) = 0 THEN [ok |-> TRUE, q |-> <<>>, i |-> i + 4] ELSE PicPackets(b, i + 4, left - 1)
         IN [ok |-> r.ok /\ Oct(b, i) \in {0, 1} /\ Oct(b, i + 1) = 8 /\ Oct(b, i + 2) \in 0..2 /\ m % 16 = 0 /\ m # 0, q |-> << [at |-> at, ty |-> Oct(b, i + 2)] >> \o r.q, i |-> r.i]
\* the packets of h rows from i on, into rows of w pixels of u channels
RECURSIVE PicRows(_, _, _, _, _, _)
PicRows(b, i, ps, w, h, rows) ==
    IF h = 0 THEN [ok |-> i = Len(b), rows |-> rows]
    ELSE LET RECURSIVE each(_, _, _)
             each(p, j, acc) == IF p > Len(ps) THEN [ok |-> TRUE, i |-> j, q |-> acc]
                                ELSE LET r == PicRow(b, j, ps[p].ty, Len(ps[p].at), w, <<>>) IN IF ~r.ok THEN [ok |-> FALSE, i |-> j, q |-> acc] ELSE each(p + 1, r.i, Append(acc, r.d))
             e == each(1, i, <<>>)
         IN IF ~e.ok THEN [ok |-> FALSE, rows |-> rows] ELSE PicRows(b, e.i, ps, w, h - 1, Append(rows, e.q))
DecodePic(b) ==
    IF ~Has(b, 0, 109) THEN NoDecode
    ELSE LET w == M16(b, 92) h == M16(b, 94)
             P == PicPackets(b, 104, 4)
             all == Places(P.q)
             u == Len(all)
             who(c) == CHOOSE x \in (1..Len(P.q)) \X (1..4) : x[2] <= Len(P.q[x[1]].at) /\ P.q[x[1]].at[x[2]] = c
             R == PicRows(b, P.i, P.q, w, h, <<>>)
             H == [c \in 0..(u - 1) |-> who(c)]
         IN IF Cut(b, 0, 4) # <<83, 128, 246, 52>> \/ Cut(b, 88, 4) # <<80, 73, 67, 84>> \/ w \notin 1..64 \/ h \notin 1..64 \/ M16(b, 100) # 3 \/ ~P.ok THEN NoDecode
            ELSE IF u \notin {3, 4} \/ {all[k] : k \in 1..u} # 0..(u - 1) THEN NoDecode
            ELSE IF ~R.ok THEN NoDecode
            ELSE Decodes(Pixels(w, h, IF u = 3 THEN IL_RGB ELSE IL_RGBA, IL_UNSIGNED_BYTE, IL_ORIGIN_LOWER_LEFT,
                   [q \in 1..(w * h * u) |-> LET c == (q - 1) % u x == ((q - 1) \div u) % w y == h - 1 - ((q - 1) \div (u * w)) IN
                                             R.rows[y + 1][H[c][1]][x * Len(P.q[H[c][1]].at) + H[c][2]]]))

(* -------------------------------------------------------------------- ICO -- *)
IconPage(b, i, z) ==
    LET p == DecodePng(Cut(b, i, z))
        w == L32(b, i + 4) h2 == L32(b, i + 8) h == h2 \div 2 bits == L16(b, i + 14)
        used == L32(b, i + 32)
        cols == IF bits > 8 THEN 0 ELSE IF used = 0 THEN P2[bits + 1] ELSE used
        n == 4 * ((w * bits + 31) \div 32) m == 4 * ((w + 31) \div 32)
        x == i + 40 + 4 * cols                        \* where the pixels start
        a == x + n * h                                \* and the mask
        clear == Packed(b, a, 1, w, m, h)
        ix == Packed(b, x, bits, w, n, h)
        \* channel c (0..3) of pixel k, and with its rows the other way round
        of(k, c) == IF c = 3 /\ bits < 32 THEN (IF clear[k + 1] = 1 THEN 0 ELSE 255)
                    ELSE IF bits <= 8 THEN Oct(b, i + 40 + 4 * ix[k + 1] + c)
                    ELSE Oct(b, x + (k \div w) * n + (k % w) * (bits \div 8) + c)
        png == LET u == IF p.n.f = IL_RGB THEN 3 ELSE IF p.n.f = IL_RGBA THEN 4 ELSE 1
                   at(q, c) == LET k == ((p.n.h - 1 - (q \div p.n.w)) * p.n.w) + (q % p.n.w) IN
                               IF u = 1 THEN LET e == p.n.dat[k + 1] v == IF p.n.pt = IL_PAL_RGB24 THEN 3 ELSE 4 IN IF c = 3 THEN (IF v = 3 THEN 255 ELSE p.n.pal[4 * e + 4]) ELSE p.n.pal[v * e + 3 - c]
                               ELSE IF c = 3 THEN (IF u = 3 THEN 255 ELSE p.n.dat[k * 4 + 4]) ELSE p.n.dat[k * u + 3 - c]
               IN Pixels(p.n.w, p.n.h, IL_BGRA, IL_UNSIGNED_BYTE, IL_ORIGIN_LOWER_LEFT, [q \in 1..(4 * p.n.w * p.n.h) |-> at((q - 1) \div 4, (q - 1) % 4)])
    IN IF p.ok THEN (IF p.n.f \in {IL_RGB, IL_RGBA, IL_COLOUR_INDEX} /\ p.n.t = IL_UNSIGNED_BYTE THEN Decodes(png) ELSE NoDecode)
       ELSE IF ~Has(b, i, 40) THEN NoDecode
       ELSE IF L32(b, i) # 40 \/ w \notin 1..64 \/ h2 \notin 2..128 \/ h2 % 2 # 0 \/ L16(b, i + 12) # 1 \/ bits \notin {1, 4, 8, 24, 32} \/ L32(b, i + 16) # 0 THEN NoDecode
       ELSE IF cols \notin 0..256 THEN NoDecode
       ELSE IF (bits <= 8 /\ cols > P2[bits + 1]) \/ ~Has(b, a, m * h) \/ z # a + m * h - i THEN NoDecode
       ELSE IF bits <= 8 /\ \E k \in 1..(w * h) : ix[k] >= cols THEN NoDecode
       ELSE Decodes(Pixels(w, h, IL_BGRA, IL_UNSIGNED_BYTE, IL_ORIGIN_LOWER_LEFT, [q \in 1..(4 * w * h) |-> of((q - 1) \div 4, (q - 1) % 4)]))
RECURSIVE IconPages(_, _, _)
IconPages(b, k, n) ==
    IF k = n THEN [ok |-> TRUE, n |-> <<>>]
    ELSE IF ~Has(b, L32(b, 18 + 16 * k), L32(b, 14 + 16 * k)) THEN [ok |-> FALSE, n |-> <<>>]
    ELSE LET p == IconPage(b, L32(b, 18 + 16 * k), L32(b, 14 + 16 * k)) IN
         IF ~p.ok THEN [ok |-> FALSE, n |-> <<>>] ELSE LET r == IconPages(b, k + 1, n) IN [ok |-> r.ok, n |-> << [p.n EXCEPT !.N = r.n] >>]
DecodeIco(b) ==
    IF ~Has(b, 0, 22) THEN NoDecode
    ELSE IF L16(b, 0) # 0 \/ L16(b, 2) \notin {1, 2} \/ L16(b, 4) \notin 1..5 \/ ~Has(b, 6, 16 * L16(b, 4)) THEN NoDecode
    ELSE LET r == IconPages(b, 0, L16(b, 4)) IN IF ~r.ok THEN NoDecode ELSE Decodes(r.n[1])

Meaning(T, b) ==
    IF ~Known(b) THEN NoDecode
    ELSE CASE T = IL_DDS -> DecodeDds(b) [] T = IL_TGA -> DecodeTga(b) [] T = IL_BMP -> DecodeBmp(b) [] T = IL_PCX -> DecodePcx(b)
           [] T = IL_SGI -> DecodeSgi(b) [] T = IL_PNM -> DecodePnm(b) [] T = IL_PSD -> DecodePsd(b) [] T = IL_SUN -> DecodeSun(b)
           [] T = IL_WBMP -> DecodeWbmp(b) [] T = IL_GIF -> DecodeGif(b) [] T = IL_PNG -> DecodePng(b) [] T = IL_TIF -> DecodeTif(b)
           [] T = IL_PIX -> DecodePix(b) [] T = IL_PXR -> DecodePxr(b) [] T = IL_FTX -> DecodeFtx(b) [] T = IL_WAL -> DecodeWal(b)
           [] T = IL_CUT -> DecodeCut(b) [] T = IL_PIC -> DecodePic(b) [] T = IL_ICO -> DecodeIco(b)
           [] OTHER -> NoDecode
===============================================================================
