------------------------------- MODULE ILFilter -------------------------------
(* Filters: each pixel made from the pixels around it, or moved about.        *)
EXTENDS ILUtil

\* Weights of the 3x3 neighbourhood, what the sum is divided by, and what is then added.
Average == [m |-> <<1, 1, 1, 1, 1, 1, 1, 1, 1>>, sc |-> 9, bias |-> 1, old |-> FALSE]
Gaussian == [m |-> <<1, 2, 1, 2, 4, 2, 1, 2, 1>>, sc |-> 16, bias |-> 1, old |-> FALSE]
SobelH == [m |-> <<1, 2, 1, 0, 0, 0, -1, -2, -1>>, sc |-> 1, bias |-> 0, old |-> FALSE]
SobelV == [m |-> <<1, 0, -1, 2, 0, -2, 1, 0, -1>>, sc |-> 1, bias |-> 0, old |-> FALSE]
PrewittH == [m |-> <<1, 1, 1, 0, 0, 0, -1, -1, -1>>, sc |-> 1, bias |-> 0, old |-> FALSE]
PrewittV == [m |-> <<1, 0, -1, 1, 0, -1, 1, 0, -1>>, sc |-> 1, bias |-> 0, old |-> FALSE]
Embossing == [m |-> <<-1, 0, 1, -1, 0, 1, -1, 0, 1>>, sc |-> 1, bias |-> 128, old |-> TRUE]
EmbossEdge == [Embossing EXCEPT !.bias = 0, !.old = FALSE]

\* Which pixels a filter is to change: 1 those inside the region, 0 those outside, -1 not settled.
Inside(s, n) == TLCEval([p \in 0..(Count(n) - 1) |-> IF s.reg.p = <<>> THEN 1 ELSE IF RegionOk(s, n) THEN InRegion(s, n, p % n.w, (p \div n.w) % n.h) ELSE -1])
IsCorner(n, p) == p % n.w \in {0, n.w - 1} /\ (p \div n.w) % n.h \in {0, n.h - 1}
ButCorners(n, R) == TLCEval([p \in DOMAIN R |-> IF IsCorner(n, p) THEN 0 ELSE R[p]])
\* The pixel dx, dy away from p in the same plane; the edges repeat.
Beside(n, p, dx, dy) ==
    LET cut(v, m) == IF v < 0 THEN 0 ELSE IF v >= m THEN m - 1 ELSE v
        z == p \div (n.w * n.h)
    IN (z * n.h + cut(((p \div n.w) % n.h) + dy, n.h)) * n.w + cut((p % n.w) + dx, n.w)
\* The pixel that the j-th weight goes to.  Where the reference images of the documentation (which the tests compare with) were
\* made with other neighbours, these are kept: rows go on at their start, and the last weight goes to the lower left.
Spot(n, p, k, j) ==
    LET x == p % n.w  dx == (j - 1) % 3  dy == ((j - 1) \div 3) - 1 IN
    IF ~k.old THEN Beside(n, p, dx - 1, dy)
    ELSE IF x = n.w - 1 THEN Beside(n, p - x + ((x + dx) % n.w), 0, dy)
    ELSE IF x > 0 /\ j = 9 THEN Beside(n, p, -1, 1)
    ELSE Beside(n, p, dx - 1, dy)
\* One pass over bytes of ch channels.
Pass(n, d, R, k) ==
    IF d = Wild THEN Wild ELSE
    LET ch == Bpp(n.f) IN
    TLCEval([i \in 1..Len(d) |->
       LET p == (i - 1) \div ch  c == ((i - 1) % ch) + 1
           o(j) == IF k.m[j] = 0 THEN 0 ELSE d[Spot(n, p, k, j) * ch + c]
           v == TLCEval([j \in 1..9 |-> o(j)])
       IN IF R[p] = 0 THEN d[i] ELSE IF R[p] < 0 THEN -9
          ELSE IF \E j \in 1..9 : ~Exact(v[j]) THEN -9
          ELSE Min2(255, Abs(v[1] * k.m[1] + v[2] * k.m[2] + v[3] * k.m[3] + v[4] * k.m[4] + v[5] * k.m[5] + v[6] * k.m[6] + v[7] * k.m[7] + v[8] * k.m[8] + v[9] * k.m[9]
                             + k.bias * k.sc) \div Abs(k.sc))])
RECURSIVE Passes(_, _, _, _, _)
Passes(n, d, R, k, i) == IF i = 0 \/ d = Wild THEN d ELSE Passes(n, Pass(n, d, R, k), R, k, i - 1)
RECURSIVE Root(_, _, _)
Root(v, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= v THEN Root(v, m, hi) ELSE Root(v, lo, m - 1)
\* Length of the gradient.
Edges(n, d, R, kh, kv) ==
    IF d = Wild THEN Wild ELSE
    LET h == Pass(n, d, R, kh)  v == Pass(n, d, R, kv)  ch == Bpp(n.f) IN
    TLCEval([i \in 1..Len(d) |-> IF R[(i - 1) \div ch] = 0 THEN d[i] ELSE IF Exact(h[i]) /\ Exact(v[i]) THEN Root(h[i] * h[i] + v[i] * v[i], 0, 255) ELSE -9])
\* (1 - k/256) of the blurred image and k/256 of the image, again and again.
Mixed(b, v, k) == IF Exact(b) /\ Exact(v) THEN LET x == (256 - k) * b + k * v IN IF x < 0 THEN 0 ELSE Min2(255, x \div 256) ELSE -9
RECURSIVE Mix(_, _, _, _)
Mix(d, b, k, i) == IF i = 0 \/ d = Wild THEN d ELSE Mix(TLCEval([q \in 1..Len(d) |-> Mixed(b[q], d[q], k)]), b, k, i - 1)

(* The filters see bytes of colours: other images are converted and back.    *)
Seen(s, n) == IF n.f = IL_COLOUR_INDEX THEN ConvImage(s, n, PalBase(n.pt), IL_UNSIGNED_BYTE)
              ELSE IF Bpc(n.t) = 1 THEN [ok |-> TRUE, n |-> n]
              ELSE ConvImage(s, n, n.f, IL_UNSIGNED_BYTE)
Unseen(s, n, m) == LET b == ConvImage(s, m, n.f, IF n.f = IL_COLOUR_INDEX THEN IL_UNSIGNED_BYTE ELSE n.t).n IN
                   IF Bpc(n.t) = 1 /\ n.f # IL_COLOUR_INDEX THEN [n EXCEPT !.dat = m.dat, !.fl = Wild]
                   ELSE [n EXCEPT !.dat = b.dat, !.fl = b.fl, !.pt = b.pt, !.pal = b.pal]
Opened(n) == [n EXCEPT !.dat = Wild, !.fl = Wild, !.pal = IF n.f = IL_COLOUR_INDEX THEN Wild ELSE @, !.pt = IF n.f = IL_COLOUR_INDEX THEN -9 ELSE @]
Filtered(s, g(_, _)) ==
    LET n == Cur(s)
        m == Seen(s, n)
        d == TLCEval(Bytes(m.n))
    IN IF n.f = IL_COLOUR_INDEX /\ n.pt = -9 THEN Res(SetCur(s, Opened(n)), -999, Maybe)
       ELSE IF ~m.ok THEN Fail(s)
       ELSE Same(SetCur(s, Unseen(s, n, [m.n EXCEPT !.dat = g(m.n, d), !.fl = Wild])), 1)
Convolve(s, k, iter) ==
    LET n == Cur(s) R == ButCorners(n, Inside(s, n)) g(m, d) == Passes(m, d, R, k, iter) IN
    IF iter = 0 THEN Same(s, 1) ELSE Filtered(s, g)
EdgeDetect(s, kh, kv) == LET n == Cur(s) R == ButCorners(n, Inside(s, n)) g(m, d) == Edges(m, d, R, kh, kv) IN Filtered(s, g)
Sharpen(s, k, iter) ==
    LET n == Cur(s) R == ButCorners(n, Inside(s, n)) 
        g(m, d) == IF d = Wild THEN Wild ELSE
                   LET x == Mix(d, Pass(m, d, R, [Gaussian EXCEPT !.old = TRUE]), k, iter) IN
                   TLCEval([q \in 1..Len(d) |-> IF R[(q - 1) \div Bpp(m.f)] = 0 THEN d[q] ELSE x[q]]) IN
    IF iter = 0 THEN Same(s, 1) ELSE Filtered(s, g)

(* ------------------------------------------------------------- pixelizing -- *)
\* First pixel of the block that p is in.
BlockOf(n, ps, p) == LET x == p % n.w y == (p \div n.w) % n.h z == p \div (n.w * n.h) IN ((z - (z % ps)) * n.h + y - (y % ps)) * n.w + x - (x % ps)
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<p>> \o Listed(S \ {p})
RECURSIVE Total(_, _)
Total(q, k) == IF k = 0 THEN 0 ELSE q[k] + Total(q, k - 1)
\* vals: channel values, lo..hi the range in which a value is known; -99999 elsewhere
Averages(n, ps, vals, lo, hi) ==
    LET ch == Bpp(n.f)
        heads == {BlockOf(n, ps, p) : p \in 0..(Count(n) - 1)}
        mem(b) == Listed({p \in 0..(Count(n) - 1) : BlockOf(n, ps, p) = b})
        avg(b, c) == LET M == mem(b) v == TLCEval([i \in 1..Len(M) |-> vals[M[i] * ch + c]]) IN
                     IF \E i \in 1..Len(v) : v[i] < lo \/ v[i] > hi THEN -99999 ELSE Total(v, Len(v)) \div Len(v)
    IN TLCEval([b \in heads |-> TLCEval([c \in 1..ch |-> avg(b, c)])])
Pixelize(s, size) ==
    LET n0 == Cur(s)
        ps == IF size = 0 THEN 1 ELSE IF size < 0 THEN 1000000 ELSE size    \* (unsigned)
        m == IF n0.f = IL_COLOUR_INDEX THEN ConvImage(s, n0, PalBase(n0.pt), IL_UNSIGNED_BYTE) ELSE [ok |-> TRUE, n |-> n0]
        n == m.n
        R == Inside(s, n)
        ch == Bpp(n.f) u == Bpc(n.t)
        d == TLCEval(Bytes(n)) fls == FlVals(n)
        v8 == d
        v16 == TLCEval([i \in 1..(Len(d) \div 2) |-> Val16(d[2 * i - 1], d[2 * i])])
        A8 == Averages(n, ps, v8, 0, 255)
        A16 == Averages(n, ps, v16, 0, 65535)
        AF == Averages(n, ps, fls, -200000, 200000)
        same(i) == LET c == (i - 1) % (ch * u) b == BlockOf(n, ps, (i - 1) \div (ch * u)) IN
                   Exact(d[i]) /\ \A p \in 0..(Count(n) - 1) : BlockOf(n, ps, p) = b => \A k \in 0..(u - 1) : LET j == (c - (c % u)) + k + 1 IN Exact(d[p * ch * u + j]) /\ d[p * ch * u + j] = d[b * ch * u + j]
        entry(i) == LET p == (i - 1) \div (ch * u) c == (((i - 1) % (ch * u)) \div u) + 1 b == BlockOf(n, ps, p) IN
                    IF R[p] = 0 THEN d[i] ELSE IF R[p] < 0 THEN -9
                    ELSE IF u = 1 THEN (IF A8[b][c] < 0 THEN -9 ELSE A8[b][c])
                    ELSE IF n.t \in {IL_SHORT, IL_UNSIGNED_SHORT} THEN (IF A16[b][c] < 0 THEN -9 ELSE IF i % 2 = 1 THEN A16[b][c] % 256 ELSE A16[b][c] \div 256)
                    ELSE IF n.t \in {IL_INT, IL_UNSIGNED_INT} /\ same(i) THEN d[i] ELSE -9
        flentry(i) == LET p == (i - 1) \div ch IN IF R[p] = 0 THEN fls[i] ELSE IF R[p] < 0 THEN -99999 ELSE AF[BlockOf(n, ps, p)][((i - 1) % ch) + 1]
    IN IF n0.f = IL_COLOUR_INDEX /\ n0.pt = -9 THEN Res(SetCur(s, Lost(n0)), -999, Maybe)
       ELSE IF ~m.ok THEN Fail(s)
       ELSE IF n.t \in FloatTypes
       THEN Same(SetCur(s, [n EXCEPT !.dat = Wild, !.fl = IF fls = Wild THEN Wild ELSE TLCEval([i \in 1..Len(fls) |-> flentry(i)])]), 1)
       ELSE Same(SetCur(s, [n EXCEPT !.fl = Wild, !.dat = IF d = Wild \/ n.t = IL_HALF THEN Wild ELSE TLCEval([i \in 1..Len(d) |-> entry(i)])]), 1)

(* ---------------------------------------------------------------- colours -- *)
Colourful == {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA}
\* g(pixel's channel values as (r, g, b)) gives the three new ones
EachColour(n, g(_)) ==
    LET d == TLCEval(Bytes(n)) ch == Bpp(n.f) pos == RgbPos(n.f) IN
    [n EXCEPT !.fl = Wild, !.dat = IF d = Wild THEN Wild ELSE TLCEval([i \in 1..Len(d) |->
        LET p == ((i - 1) \div ch) * ch c == ((i - 1) % ch) + 1 IN
        IF c = 4 THEN d[i] ELSE g(<<d[p + pos[1]], d[p + pos[2]], d[p + pos[3]]>>)[CHOOSE j \in 1..3 : pos[j] = c]])]
\* Red takes the value of blue.
Alienify(s) ==
    LET n == Cur(s) g(p) == <<p[3], p[2], p[3]>> IN
    IF Bpc(n.t) > 1 THEN Fail(s)
    ELSE IF n.f \notin Colourful THEN Res(s, 0, Maybe)
    ELSE Same(SetCur(s, EachColour(n, g)), 1)
\* Weighted sums of the channels (in thousandths).
Sepia(s) ==
    LET n == Cur(s)
        w(p, a, b, c) == IF \E k \in 1..3 : ~Exact(p[k]) THEN -9
                         ELSE LET v == a * p[1] + b * p[2] + c * p[3] IN IF v >= 256000 THEN 255 ELSE IF v % 1000 = 0 THEN Rng(Max2(0, v \div 1000 - 1), v \div 1000) ELSE v \div 1000
        g(p) == <<w(p, 393, 769, 189), w(p, 349, 686, 168), w(p, 272, 534, 131)>>
    IN IF n.t # IL_UNSIGNED_BYTE THEN Fail(s)
       ELSE IF n.f \notin Colourful THEN Res(s, 0, Maybe)
       ELSE Same(SetCur(s, EachColour(n, g)), 1)
\* Brightness v becomes the share (of 256) of pixels darker than v.
Equalize(s) ==
    LET n == Cur(s)
        ch == Bpp(n.f) d == TLCEval(Bytes(n))
        all == \A p \in 0..(Count(n) - 1) : Exact(d[p * ch + 1])
        T == TLCEval([v \in 0..255 |-> (Cardinality({p \in 0..(Count(n) - 1) : d[p * ch + 1] < v}) * 256) \div Count(n)])
        new(v) == IF v = 0 THEN 0 ELSE Rng(Max2(T[v] - 1, 0), T[v])
        pc == PalBpp(n.pt)
    IN IF Bpc(n.t) > 1 THEN Fail(s)
       ELSE IF n.f = IL_COLOUR_INDEX
       THEN IF n.pt = -9 THEN Res(SetCur(s, [n EXCEPT !.pal = Wild]), -999, Maybe)
            ELSE IF pc = 0 \/ n.pal = <<>> THEN Fail(s)
            ELSE Same(SetCur(s, [n EXCEPT !.pal = IF Known(n.pal) THEN [i \in 1..Len(n.pal) |-> IF pc = 4 /\ i % 4 = 0 THEN n.pal[i] ELSE -9] ELSE Wild]), 1)
       ELSE IF n.f = IL_ALPHA \/ n.t # IL_UNSIGNED_BYTE THEN Res(SetCur(s, [n EXCEPT !.dat = Wild]), -999, Maybe)
       ELSE IF d = Wild THEN Same(SetCur(s, [n EXCEPT !.dat = Wild]), 1)
       ELSE Same(SetCur(s, [n EXCEPT !.dat = TLCEval([i \in 1..Len(d) |->
                LET c == ((i - 1) % ch) + 1 IN
                IF n.f \in Colourful THEN (IF c = 4 THEN d[i] ELSE -9)
                ELSE IF c = 2 THEN d[i] ELSE IF all THEN new(d[i]) ELSE -9])]), 1)

(* ------------------------------------------------------------ noise, wave -- *)
\* Values move by at most k/256 of half the range.
Noisify(s, k) ==
    LET n == Cur(s)
        t == Min2(k, 256)
        R == Inside(s, n) u == Bpp(n.f) * Bpc(n.t) ch == Bpp(n.f)
        d == TLCEval(Bytes(n)) fls == FlVals(n)
        f8 == (127 * t) \div 256 f16 == (32767 * t) \div 256
        b8(i) == IF Exact(d[i]) THEN (IF f8 = 0 THEN d[i] ELSE Rng(Max2(0, d[i] - f8), Min2(255, d[i] + f8 - 1))) ELSE -9
        b16(i) == LET j == i - ((i - 1) % 2) v == Val16(d[j], d[j + 1]) IN
                  IF v < 0 \/ IsP16(d[j]) THEN -9 ELSE P16(v, f16)[i - j + 1]
        ent(i) == IF R[(i - 1) \div u] = 0 THEN d[i] ELSE CASE Bpc(n.t) = 1 -> b8(i) [] Bpc(n.t) = 2 -> b16(i) [] OTHER -> -9
    IN IF k <= 0 THEN Same(s, 1)
       ELSE IF n.t \in FloatTypes
       THEN Same(SetCur(s, [n EXCEPT !.dat = Wild, !.fl = IF fls = Wild THEN Wild ELSE TLCEval([i \in 1..Len(fls) |-> IF R[(i - 1) \div ch] = 0 THEN fls[i] ELSE -99999])]), 1)
       ELSE Same(SetCur(s, [n EXCEPT !.fl = Wild, !.dat = IF d = Wild THEN Wild ELSE TLCEval([i \in 1..Len(d) |-> ent(i)])]), 1)
\* Sines of 0..90 degrees, in millionths.
Sines == <<0, 17452, 34899, 52336, 69756, 87156, 104528, 121869, 139173, 156434, 173648, 190809, 207912, 224951, 241922, 258819, 275637, 292372, 309017, 325568, 342020, 358368, 374607, 390731, 406737, 422618, 438371, 453990, 469472, 484810, 500000, 515038, 529919, 544639, 559193, 573576, 587785, 601815, 615661, 629320, 642788, 656059, 669131, 681998, 694658, 707107, 719340, 731354, 743145, 754710, 766044, 777146, 788011, 798636, 809017, 819152, 829038, 838671, 848048, 857167, 866025, 874620, 882948, 891007, 898794, 906308, 913545, 920505, 927184, 933580, 939693, 945519, 951057, 956305, 961262, 965926, 970296, 974370, 978148, 981627, 984808, 987688, 990268, 992546, 994522, 996195, 997564, 998630, 999391, 999848, 1000000>>
Sin(a) == LET x == a % 360 IN CASE x <= 90 -> Sines[x + 1] [] x > 90 /\ x <= 180 -> Sines[181 - x] [] x > 180 /\ x <= 270 -> -Sines[x - 179] [] OTHER -> -Sines[361 - x]
\* Row y turns round by this many pixels; where rounding could decide, -999.
Swing(a, y) ==
    LET v == 30 * Sin(10 * a + y) + 15 * Sin(7 * a + 3 * y)
        m == Abs(v) % 1000000
    IN IF m > 999900 \/ (m < 100 /\ Abs(v) > 999900) THEN -999 ELSE IF v < 0 THEN -(Abs(v) \div 1000000) ELSE v \div 1000000
Wave(s, a) ==
    LET n == Cur(s)
        D == TLCEval([y \in 0..(n.h - 1) |-> Swing(a, y)])
        src(x, y, z) == IF D[y] = -999 THEN -1 ELSE (z * n.h + y) * n.w + ((x - D[y]) % n.w)
        fill == [i \in 1..(Bpp(n.f) * Bpc(n.t)) |-> -9]
        ffill == [i \in 1..Bpp(n.f) |-> -99999]
    IN Same(SetCur(s, Gather([n EXCEPT !.fl = FlVals(n)], n.w, n.h, n.d, src, fill, ffill)), 1)

FilterOps == {"iluPixelize", "iluEqualize", "iluAlienify", "iluBlurAvg", "iluBlurGauss", "iluEmboss", "iluEdgeE", "iluEdgeP", "iluEdgeS", "iluSharpen",
              "iluSepia", "iluNoisify", "iluWave", "iluConv"}
DoFilter(s, c) ==
    CASE c.op = "iluPixelize" -> Pixelize(s, c.a[1])
      [] c.op = "iluEqualize" -> Equalize(s)
      [] c.op = "iluAlienify" -> Alienify(s)
      [] c.op = "iluBlurAvg" -> Convolve(s, Average, c.a[1])
      [] c.op = "iluBlurGauss" -> Convolve(s, Gaussian, c.a[1])
      [] c.op = "iluEmboss" -> Convolve(s, Embossing, 1)
      [] c.op = "iluEdgeE" -> Convolve(s, EmbossEdge, 1)
      [] c.op = "iluEdgeP" -> EdgeDetect(s, PrewittH, PrewittV)
      [] c.op = "iluEdgeS" -> EdgeDetect(s, SobelH, SobelV)
      [] c.op = "iluSharpen" -> Sharpen(s, c.a[1], c.a[2])
      [] c.op = "iluSepia" -> Sepia(s)
      [] c.op = "iluNoisify" -> Noisify(s, c.a[1])
      [] c.op = "iluWave" -> Wave(s, c.a[1])
      [] c.op = "iluConv" -> IF c.a[10] = 0 THEN Fail(s) ELSE Convolve(s, [m |-> SubSeq(c.a, 1, 9), sc |-> c.a[10], bias |-> c.a[11], old |-> FALSE], 1)
===============================================================================
