-------------------------------- MODULE ILDxt --------------------------------
(* Block-compressed texture data kept beside an image: how many bytes, what   *)
(* each 4x4 block means, and what compressing keeps.                          *)
EXTENDS ILFilter

DxLoadable == {IL_DXT1, IL_DXT1A, IL_DXT3, IL_DXT5}                   \* can be turned back into an image
DxMade == DxLoadable \cup {IL_3DC, IL_RXGB, IL_ATI1N}                 \* can be made from an image
DxAny == DxMade \cup {IL_DXT2, IL_DXT4}
(* ------------------------------------------------------------- compressing *)
\* What is sure to survive: blocks of one colour that the format can represent.  m: RGBA, upper row first.
Is5(v) == v = 8 * (v \div 8) + (v \div 32)
Is6(v) == v = 4 * (v \div 4) + (v \div 64)
DxKept(f, grey, t) ==
    LET any == <<-9, -9, -9, -9>> open4 == [t EXCEPT ![4] = -9]
        rgb == Is5(t[1]) /\ Is6(t[2]) /\ Is5(t[3])
    IN IF ~(\A k \in 1..4 : Exact(t[k])) THEN any
       ELSE CASE f \in {IL_DXT1, IL_DXT1A} -> IF t[4] = 0 THEN <<-9, -9, -9, 0>> ELSE IF t[4] = 255 /\ rgb THEN t ELSE any
              [] f = IL_DXT3 -> (IF rgb THEN SubSeq(t, 1, 3) ELSE <<-9, -9, -9>>) \o (IF t[4] % 17 = 0 THEN <<t[4]>> ELSE <<-9>>)
              [] f = IL_DXT5 -> (IF rgb THEN SubSeq(t, 1, 3) ELSE <<-9, -9, -9>>) \o <<t[4]>>
              [] f = IL_RXGB -> <<t[1], IF Is6(t[2]) /\ Is5(t[3]) THEN t[2] ELSE -9, IF Is6(t[2]) /\ Is5(t[3]) THEN t[3] ELSE -9, 255>>
              [] f = IL_ATI1N -> IF grey THEN <<t[1], t[1], t[1], 255>> ELSE any
              [] OTHER -> IF grey THEN any ELSE <<t[1], t[2], -9, 255>>
Compressed(f, m, grey, w, h, d) ==
    IF ~Known(m) THEN Wild
    ELSE LET at(x, y, z) == LET p == ((z * h + y) * w + x) * 4 IN SubSeq(m, p + 1, p + 4)
             X(bx) == (4 * bx)..Min2(4 * bx + 3, w - 1)
             Y(by) == (4 * by)..Min2(4 * by + 3, h - 1)
             one == [bz \in 0..(d - 1), by \in 0..(Blocks(h) - 1), bx \in 0..(Blocks(w) - 1) |->
                        LET t == at(4 * bx, 4 * by, bz)
                        IN IF \A x \in X(bx), y \in Y(by) : at(x, y, bz) = t THEN DxKept(f, grey, t) ELSE <<-9, -9, -9, -9>>]
         IN [q \in 1..(w * h * d * 4) |->
                LET p == (q - 1) \div 4 x == p % w y == (p \div w) % h z == p \div (w * h)
                IN one[z, y \div 4, x \div 4][((q - 1) % 4) + 1]]
Greyish(n) == n.f \in {IL_LUMINANCE, IL_LUMINANCE_ALPHA}
MadeFrom(f, n) == IF n.w < 1 THEN Wild
                  ELSE Compressed(f, Rgba(n, IL_UNSIGNED_BYTE), Greyish(n), n.w, n.h, n.d)
\* Compressing image n cannot fail (but for want of memory).
SureDx(n) == \/ n.f \in {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}
             \/ Indexed(n) /\ Known(n.pal) /\ Known(n.dat) /\ \A i \in 1..Len(n.dat) : n.dat[i] < PalLen(n.pt, n.pal)

(* ------------------------------------------------- data kept beside images *)
\* s.dx: place -> [f, b, d, z]: format, bytes, the pixels they mean, size; NoDx: there is none; no entry: not known.
NoDx == [f |-> 0, b |-> <<>>, d |-> <<>>, z |-> 0]
Here(s) == <<s.cur, s.path>>
HasDx(s, p) == p \in DOMAIN s.dx
PutDx(s, p, x) == [s EXCEPT !.dx = (p :> x) @@ @]
DropDx(s, p) == [s EXCEPT !.dx = [q \in DOMAIN @ \ {p} |-> @[q]]]
DxSane(x, n) == x.f \in DxAny /\ x.z = DxSize(x.f, n.w, n.h, n.d)
\* ---- making
Surf2Dxtc(s, f, r) ==
    LET n == Cur(s) p == Here(s) IN
    IF f \notin DxMade THEN Res(DropDx(s, p), 0, Some)
    ELSE IF n.w < 1 THEN Res(DropDx(s, p), -999, Maybe)
    ELSE LET made == PutDx(s, p, [f |-> f, b |-> Wild, d |-> MadeFrom(f, n), z |-> DxSize(f, n.w, n.h, n.d)])
         IN IF SureDx(n) THEN Res(made, 1, None)
            ELSE IF r = 1 THEN Res(made, 1, None) ELSE Res(DropDx(s, p), IF r = -999 THEN -999 ELSE 0, Maybe)
\* ---- turning back
Norm1(s, n) == LET q == NormOne(s, n) IN IF q.ok THEN q.n ELSE [n EXCEPT !.f = -9, !.t = -9, !.o = -9, !.dat = Wild, !.fl = Wild]
Dxtc2Surf(s) ==
    LET n == Cur(s) p == Here(s) IN
    IF ~HasDx(s, p) \/ n.w < 1 THEN Res(SetCur(s, [OpenNode EXCEPT !.N = n.N, !.M = n.M, !.L = n.L, !.F = n.F]), -999, Maybe)
    ELSE LET x == s.dx[p] IN
         IF x = NoDx \/ x.f \notin DxLoadable \/ ~DxSane(x, n) THEN Res(s, 0, Some)
         ELSE Same(SetCur(s, Norm1(s, [n EXCEPT !.f = IL_RGBA, !.t = IL_UNSIGNED_BYTE, !.o = IL_ORIGIN_UPPER_LEFT, !.pt = IL_PAL_NONE, !.pal = <<>>, !.dat = x.d, !.fl = Wild])), 1)
\* ---- for the images of an animation and their mipmaps
RECURSIVE Walk(_, _)
Walk(n, p) == <<p>> \o (IF n.M = <<>> \/ n.M = WildSub THEN <<>> ELSE Walk([n.M[1] EXCEPT !.N = <<>>], p \o <<"M">>))
                    \o (IF n.N = <<>> \/ n.N = WildSub THEN <<>> ELSE Walk(n.N[1], p \o <<"N">>))
RECURSIVE OpenSomewhere(_)
OpenSomewhere(n) == \E k \in {"N", "M"} : n[k] = WildSub \/ (n[k] # <<>> /\ OpenSomewhere(n[k][1]))
RECURSIVE DxFold(_, _, _, _)
\* step: 1 make format f, 2 turn back
DxFold(s, ps, step, acc) ==
    IF ps = <<>> THEN [s |-> [s EXCEPT !.path = <<>>], r |-> acc]
    ELSE LET s1 == [s EXCEPT !.path = ps[1]]
             R == IF step = 0 THEN Dxtc2Surf(s1) ELSE Surf2Dxtc(s1, step, -999)
         IN DxFold(R.s, Tail(ps), step, IF R.r = 0 \/ acc = 0 THEN 0 ELSE IF R.r = -999 THEN -999 ELSE acc)
Everywhere(s, step) ==
    IF OpenSomewhere(Base(s)) THEN Res([s EXCEPT !.imgs = [@ EXCEPT ![s.cur] = OpenNode], !.path = <<>>, !.dx = <<>>], -999, Maybe)
    ELSE LET F == DxFold(s, Walk(Base(s), <<>>), step, 1) IN Res(F.s, F.r, IF F.r = 1 THEN None ELSE IF F.r = 0 THEN Some ELSE Maybe)
\* ---- the bytes: o holds the announced size, then what the buffer holds
BytesOf(o) == SubSeq(o, 2, Len(o))
GetDXTC(s, c) ==
    LET f == c.a[1] n == Cur(s) p == Here(s)
        size == DxSize(f, n.w, n.h, n.d)
        cap == IF Len(c.a) > 1 THEN c.a[2] ELSE size
        kept == HasDx(s, p) /\ s.dx[p].f = f /\ DxSane(s.dx[p], n)
        want == IF kept THEN (IF Known(s.dx[p].b) THEN s.dx[p].b ELSE Wild) ELSE Wild
        means == IF kept THEN s.dx[p].d ELSE IF HasDx(s, p) THEN MadeFrom(f, n) ELSE Wild
        got == BytesOf(c.o)
        full == Len(got) = size /\ cap >= size /\ c.r = size
        fine == ~full \/ means = Wild \/ MatchSeq(means, Decoded(f, got, n.w, n.h, n.d))
        sure == SureDx(n) \/ kept
    IN IF n.w < 1 THEN ResO(s, -999, Wild, Maybe)
       ELSE IF f \notin DxMade THEN ResO(s, 0, <<0>>, Some)
       ELSE IF c.r # -999 /\ (~fine \/ (cap < size /\ c.r > cap) \/ (cap >= size /\ c.r \notin {0, size})) THEN Bad(s)
       ELSE ResO(s, IF sure /\ cap >= size THEN size ELSE -999,
                 IF kept /\ cap = size /\ want # Wild /\ size < 395 THEN <<size>> \o want ELSE IF c.r = -999 THEN Wild ELSE <<size>> \o [i \in 1..(Len(c.o) - 1) |-> -9],
                 IF sure /\ cap >= size THEN None ELSE Maybe)
\* ---- given from outside
TexDxtc(s, c) ==
    LET w == c.a[1] h == c.a[2] d == c.a[3] f == c.a[4]
        R == TexImage(s, [c EXCEPT !.a = <<w, h, d, 4, IL_RGBA, IL_UNSIGNED_BYTE>>, !.d = <<>>, !.nod = 1], FALSE)
        n == Cur(R.s)
        size == DxSize(f, n.w, n.h, n.d)
        b == IF Known(c.d) /\ Len(c.d) >= size THEN SubSeq(c.d, 1, size) ELSE Wild
        s0 == [R.s EXCEPT !.dx = [q \in {q \in DOMAIN @ : q[1] # s.cur} |-> @[q]]]
    IN IF f \notin DxAny THEN Res(s, 0, Some)
       ELSE IF w < 0 \/ h < 0 \/ d < 0 THEN Res(s, 0, Some)
       ELSE IF R.r = 1 THEN Same(PutDx(s0, Here(s), [f |-> f, b |-> b, d |-> Decoded(f, b, n.w, n.h, n.d), z |-> size]), 1)
       ELSE IF R.r = 0 THEN Res(s, 0, Some) ELSE Bad(s)
\* ---- changed in place
DxTurned(d, w, h, z) == IF d = Wild THEN Wild
    ELSE [q \in 1..(w * h * z * 4) |-> LET p == (q - 1) \div 4 x == p % w y == (p \div w) % h k == p \div (w * h)
                                      IN d[((k * h + (h - 1 - y)) * w + x) * 4 + ((q - 1) % 4) + 1]]
FlipDxtc(s) ==
    LET n == Cur(s) p == Here(s) IN
    IF ~HasDx(s, p) THEN Res(s, -999, Maybe)
    ELSE LET x == s.dx[p] IN
         IF x = NoDx \/ ~DxSane(x, n) \/ x.f \in {IL_DXT1A, IL_ATI1N} THEN Res(s, -999, Some)
         ELSE Res(PutDx(s, p, [x EXCEPT !.b = Wild, !.d = IF n.h % 4 = 0 THEN DxTurned(x.d, n.w, n.h, n.d) ELSE Wild]), -999, None)
InvDxtcAlpha(s) ==
    LET n == Cur(s) p == Here(s) IN
    IF ~HasDx(s, p) THEN Res(s, -999, Maybe)
    ELSE LET x == s.dx[p] IN
         IF x = NoDx \/ ~DxSane(x, n) \/ x.f \notin {IL_DXT3, IL_DXT5} THEN Res(s, 0, Some)
         ELSE Same(PutDx(s, p, [x EXCEPT !.b = Wild, !.d = IF @ = Wild THEN Wild ELSE [i \in 1..Len(@) |-> IF i % 4 # 0 THEN @[i] ELSE IF Exact(@[i]) THEN 255 - @[i] ELSE -9]]), 1)
DxtcInfo(s) == LET p == Here(s) IN
    ResO(s, -999, IF ~HasDx(s, p) THEN Wild ELSE IF s.dx[p] = NoDx THEN <<-9, -9, 0>> ELSE <<s.dx[p].f, s.dx[p].z, 1>>, None)
\* ---- a buffer of pixels, red or blue first (it depends on who compresses)
Swapped(m) == [i \in 1..Len(m) |-> IF i % 4 = 1 THEN m[i + 2] ELSE IF i % 4 = 3 THEN m[i - 2] ELSE m[i]]
CompressDXT(s, c) ==
    LET w == c.a[1] h == c.a[2] d == c.a[3] f == c.a[4]
        size == DxSize(f, w, h, d)
        got == Decoded(f, BytesOf(c.o), w, h, d)
        fine == (Len(c.o) - 1 # size) \/ (\E m \in {c.d, Swapped(c.d)} : MatchSeq(Compressed(f, m, FALSE, w, h, d), got))
    IN IF f \notin DxLoadable \/ w < 1 \/ h < 1 \/ d < 1 THEN ResO(s, 0, <<>>, Some)
       ELSE IF c.r # -999 /\ ~fine THEN Bad(s)
       ELSE ResO(s, 1, IF c.r = -999 THEN Wild ELSE <<size>> \o [i \in 1..(Len(c.o) - 1) |-> -9], None)

DxtOps == {"Surf2Dxtc", "Img2Dxtc", "Dxtc2Surf", "Dxtc2Img", "GetDXTC", "TexDxtc", "FlipDxtc", "InvDxtcAlpha", "DxtcInfo", "CompressDXT"}
\* Calls that leave every image's compressed data alone.
DxtNeutral == StateOps \cup {"Gen", "Gen1", "Bind", "BindCur", "ActN", "ActM", "ActL", "ActF", "IsImage", "CurName", "CurIsNull", "CopyPixels", "ClearColour",
                             "Note", "Audit", "Live", "MaxData", "GetError", "Drain", "SetError"}
\* What is known of compressed data after another call.
DxtAfter(s, c, R) ==
    IF c.op \in DxtNeutral \/ (s.dx = <<>> /\ c.op # "TexImage") THEN R
    ELSE IF c.op = "TexImage" THEN [R EXCEPT !.s.dx = IF R.r = 1 THEN (Here(s) :> NoDx) @@ [q \in {q \in DOMAIN @ : q[1] # s.cur} |-> @[q]]
                                                      ELSE [q \in {q \in DOMAIN @ : q[1] # s.cur} |-> @[q]]]
    ELSE [R EXCEPT !.s.dx = <<>>]
DoDxt(s, c) ==
    CASE c.op = "Surf2Dxtc" -> Surf2Dxtc(s, c.a[1], c.r)
      [] c.op = "Img2Dxtc" -> Everywhere(s, c.a[1])
      [] c.op = "Dxtc2Surf" -> Dxtc2Surf(s)
      [] c.op = "Dxtc2Img" -> Everywhere(s, 0)
      [] c.op = "GetDXTC" -> GetDXTC(s, c)
      [] c.op = "TexDxtc" -> TexDxtc(s, c)
      [] c.op = "FlipDxtc" -> FlipDxtc(s)
      [] c.op = "InvDxtcAlpha" -> InvDxtcAlpha(s)
      [] c.op = "CompressDXT" -> CompressDXT(s, c)
      [] OTHER -> DxtcInfo(s)
===============================================================================
