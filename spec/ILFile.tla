-------------------------------- MODULE ILFile --------------------------------
(* Files: saving, loading, detection, handlers, raw data; damaged contents    *)
(* and I/O faults.                                                            *)
(*                                                                            *)
(* A file's content is represented by its digest <<size, hi, lo>> as reported *)
(* by the driver.  What a digest stands for is learnt from the calls that     *)
(* produced it: `pics' maps <<type, digest>> to the picture that was saved,   *)
(* `memo' maps <<type, digest, ...>> to what loading it gave, whatever the    *)
(* source was, and `saved' lists the digests that saving gave, whatever the   *)
(* destination was.  `want' and `pend' are the picture that the image just    *)
(* loaded must show, and the entry of memo to be filled with it.              *)
EXTENDS ILEdit, ILDecode

\* ---- names and types
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
CaseMap == [c \in {SubSeq(Uppers, k, k) : k \in 1..26} |-> LET k == CHOOSE k \in 1..26 : SubSeq(Uppers, k, k) = c IN SubSeq(Lowers, k, k)]
RECURSIVE Lower(_)
Lower(x) == IF x = "" THEN "" ELSE LET c == SubSeq(x, 1, 1) IN (IF c \in DOMAIN CaseMap THEN CaseMap[c] ELSE c) \o Lower(SubSeq(x, 2, Len(x)))
Dots(x) == {k \in 1..Len(x) : SubSeq(x, k, k) = "."}
\* extension, "." if there is none
Ext(x) == IF Dots(x) = {} THEN "." ELSE LET k == CHOOSE k \in Dots(x) : \A j \in Dots(x) : j <= k IN Lower(SubSeq(x, k + 1, Len(x)))
TypeOfExt(e) ==
    CASE e \in {"tga", "vda", "icb", "vst"} -> IL_TGA
      [] e \in {"jpg", "jpe", "jpeg", "jif", "jfif"} -> IL_JPG
      [] e \in {"jp2", "jpx", "j2k", "j2c"} -> IL_JP2
      [] e = "dds" -> IL_DDS [] e = "png" -> IL_PNG [] e \in {"bmp", "dib"} -> IL_BMP [] e = "gif" -> IL_GIF
      [] e = "blp" -> IL_BLP [] e = "cut" -> IL_CUT [] e \in {"ch", "ct", "sct"} -> IL_SCITEX [] e \in {"dcm", "dicom"} -> IL_DICOM
      [] e = "dpx" -> IL_DPX [] e = "exr" -> IL_EXR [] e \in {"fit", "fits"} -> IL_FITS [] e = "ftx" -> IL_FTX [] e = "hdr" -> IL_HDR
      [] e = "iff" -> IL_IFF [] e \in {"ilbm", "lbm", "ham"} -> IL_ILBM [] e \in {"ico", "cur"} -> IL_ICO [] e = "icns" -> IL_ICNS
      [] e = "iwi" -> IL_IWI [] e = "jng" -> IL_JNG [] e = "ktx" -> IL_KTX [] e = "lif" -> IL_LIF [] e = "mdl" -> IL_MDL
      [] e = "mng" -> IL_MNG [] e = "mp3" -> IL_MP3 [] e = "pcd" -> IL_PCD [] e = "pcx" -> IL_PCX [] e = "pic" -> IL_PIC
      [] e = "pix" -> IL_PIX [] e \in {"pbm", "pgm", "pnm", "ppm", "pam"} -> IL_PNM [] e \in {"psd", "pdd"} -> IL_PSD
      [] e = "psp" -> IL_PSP [] e = "pxr" -> IL_PXR [] e = "rot" -> IL_ROT [] e \in {"sgi", "bw", "rgb", "rgba"} -> IL_SGI
      [] e \in {"sun", "ras", "rs", "im1", "im8", "im24", "im32"} -> IL_SUN [] e = "texture" -> IL_TEXTURE
      [] e \in {"tif", "tiff"} -> IL_TIF [] e = "tpl" -> IL_TPL [] e = "utx" -> IL_UTX [] e = "vtf" -> IL_VTF [] e = "wal" -> IL_WAL
      [] e = "wbmp" -> IL_WBMP [] e \in {"wdp", "hdp"} -> IL_WDP [] e = "xpm" -> IL_XPM
      [] OTHER -> IL_TYPE_UNKNOWN
\* what this build can load and save
LoadTypes == {IL_TGA, IL_JPG, IL_DDS, IL_PNG, IL_BLP, IL_BMP, IL_DPX, IL_GIF, IL_HDR, IL_CUT, IL_DICOM, IL_DOOM, IL_DOOM_FLAT,
    IL_FITS, IL_FTX, IL_ICO, IL_ICNS, IL_IFF, IL_ILBM, IL_IWI, IL_KTX, IL_LIF, IL_MDL, IL_MNG, IL_MP3, IL_PCD, IL_PCX, IL_PIC, IL_PIX,
    IL_PNM, IL_PSD, IL_PSP, IL_PXR, IL_RAW, IL_ROT, IL_SGI, IL_SUN, IL_TEXTURE, IL_TIF, IL_TPL, IL_UTX, IL_VTF, IL_WAL, IL_WBMP, IL_XPM}
SaveTypes == {IL_BMP, IL_DDS, IL_HDR, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF, IL_VTF, IL_WBMP}
SaveByName == SaveTypes \cup {IL_CHEAD, IL_JASC_PAL}
SaveOfExt(e) ==
    CASE e = "bmp" -> IL_BMP [] e = "h" -> IL_CHEAD [] e = "dds" -> IL_DDS [] e = "hdr" -> IL_HDR [] e \in {"jpg", "jpeg", "jpe"} -> IL_JPG
      [] e = "pcx" -> IL_PCX [] e = "png" -> IL_PNG [] e \in {"pbm", "pgm", "ppm"} -> IL_PNM [] e = "psd" -> IL_PSD [] e = "raw" -> IL_RAW
      [] e \in {"sgi", "bw", "rgb", "rgba"} -> IL_SGI [] e = "tga" -> IL_TGA [] e \in {"tif", "tiff"} -> IL_TIF [] e = "vtf" -> IL_VTF
      [] e = "wbmp" -> IL_WBMP [] e = "mng" -> IL_MNG [] e = "pal" -> IL_JASC_PAL
      [] OTHER -> IL_TYPE_UNKNOWN
\* types whose files bear a signature that detection looks for
Signed == {IL_BMP, IL_DDS, IL_HDR, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_SGI, IL_TIF, IL_VTF}
Validators == Signed \cup {IL_TGA, IL_BLP, IL_DICOM, IL_GIF, IL_ICNS, IL_IWI, IL_ILBM, IL_KTX, IL_LIF, IL_MDL, IL_MP3, IL_PIC, IL_PSP,
    IL_SCITEX, IL_SUN, IL_TPL, IL_XPM}
Detectable == (Validators \ {IL_DICOM})

\* ---- pictures
Rgba(n, t) == LET u == Upper(n) IN
    IF Size(n) > 16000 \/ Bytes(u) = Wild \/ IsHash(n.dat) \/ (n.f = IL_COLOUR_INDEX /\ ~Known(n.pal)) THEN Wild
    ELSE ConvBuf(Buf(u), n.f, n.t, IL_RGBA, t, n.pt, n.pal).dat
Opaque(d, t) == [i \in 1..Len(d) |-> LET b == Bpc(t) IN IF ((i - 1) \div b) % 4 = 3 THEN 255 ELSE d[i]]
NoPic == <<>>
AlphaPal(pt) == pt \in {IL_PAL_RGBA32, IL_PAL_BGRA32}
Indexed(n) == /\ n.f = IL_COLOUR_INDEX /\ n.t = IL_UNSIGNED_BYTE /\ PalBpp(n.pt) > 0
              \* (no index beyond the end of the palette)
              /\ ~Known(n.pal) \/ ~IsHash(n.dat)
              /\ ~Known(n.dat) \/ ~Known(n.pal) \/ \A i \in 1..Len(n.dat) : n.dat[i] < PalLen(n.pt, n.pal)
Ints == {IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT}
Wide(t) == IF Bpc(t) = 1 THEN IL_UNSIGNED_BYTE ELSE IL_UNSIGNED_SHORT
\* How type T stores image n: y (yes: saving must succeed, no: it must fail, ?: left open),
\* t: channel type kept (0: not said),
\* a: alpha is kept.
Stores(s, T, n) ==
    LET no == [y |-> "no", t |-> 0, a |-> FALSE]
        open == [y |-> "?", t |-> 0, a |-> FALSE]
        yes(t, a) == [y |-> "yes", t |-> t, a |-> a]
        alpha == n.f \in {IL_RGBA, IL_BGRA}
        colour == n.f \in {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA}
    IN IF n.w < 1 \/ n.f < 0 \/ n.d # 1 \/ n.w > 60000 \/ n.h > 60000 THEN open
       ELSE IF n.f = IL_COLOUR_INDEX /\ ~Indexed(n) THEN open
       ELSE IF n.f = IL_ALPHA THEN open
       ELSE CASE T = IL_BMP -> yes(IL_UNSIGNED_BYTE, FALSE)
              [] T = IL_TGA -> IF n.f = IL_LUMINANCE_ALPHA THEN no ELSE yes(IL_UNSIGNED_BYTE, alpha)
              [] T = IL_PNG -> IF n.t \notin Ints THEN no ELSE yes(Wide(n.t), alpha \/ n.f = IL_LUMINANCE_ALPHA \/ (Indexed(n) /\ AlphaPal(n.pt)))
              [] T = IL_SGI -> yes(Wide(n.t), alpha \/ n.f = IL_LUMINANCE_ALPHA)
              [] T = IL_PCX -> IF n.f = IL_LUMINANCE_ALPHA THEN open ELSE yes(IL_UNSIGNED_BYTE, alpha)
              [] T = IL_PNM -> IF n.t \notin {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT} THEN no
                               ELSE IF n.t = IL_UNSIGNED_SHORT /\ s.cmp = IL_USE_COMPRESSION THEN no      \* binary: one byte per channel
                               ELSE yes(n.t, FALSE)
              [] T = IL_TIF -> IF n.t \notin {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT} THEN open
                               \* 16-bit alpha images come back with 8 bits, rounded the library's way
                               ELSE IF (alpha \/ n.f = IL_LUMINANCE_ALPHA) /\ n.t = IL_UNSIGNED_SHORT THEN yes(0, TRUE)
                               ELSE yes(n.t, alpha \/ n.f = IL_LUMINANCE_ALPHA \/ (Indexed(n) /\ PalBpp(n.pt) = 4 /\ AlphaPal(n.pt)))
              [] T = IL_PSD -> IF n.f = IL_LUMINANCE_ALPHA THEN no ELSE yes(Wide(n.t), alpha)
              [] OTHER -> open
Pic(s, T, n) == LET q == Stores(s, T, n) IN
    IF q.y # "yes" \/ q.t = 0 THEN NoPic
    ELSE LET d == Rgba(n, q.t) IN [w |-> n.w, h |-> n.h, t |-> q.t, d |-> IF d = Wild \/ q.a THEN d ELSE Opaque(d, q.t)]
\* The image shows the picture.
PicOk(p, n) == p = NoPic \/ (n.w = p.w /\ n.h = p.h /\ n.d = 1 /\ (p.d = Wild \/ LET d == Rgba(n, p.t) IN d = Wild \/ MatchSeq(p.d, d)))

\* ---- contents of files
HasFile(s, f) == f \in DOMAIN s.files
SetFile(s, f, x) == [s EXCEPT !.files = (f :> x) @@ @]
DropFile(s, f) == [s EXCEPT !.files = [g \in DOMAIN @ \ {f} |-> @[g]]]
Exactly(d) == Known(d) \/ IsHash(d) \/ d = <<>>
RECURSIVE Settled(_)
Settled(n) == /\ Exactly(n.dat) /\ n.w > 0 /\ n.pt >= 0 /\ n.f >= 0 /\ (n.pal = <<>> \/ Exactly(n.pal))
              /\ \A k \in Dirs : n[k] = <<>> \/ (n[k] # WildSub /\ Settled(n[k][1]))
\* What determines the bytes a save writes.
SaveKey(s, T) == <<T, Base(s), s.path, s.st, s.str, s.cmp>>
SavedAt(s, k) == {i \in 1..Len(s.saved) : s.saved[i][1] = k}
AddSaved(s, k, x) == IF ~Settled(Base(s)) \/ x[1] < 1 THEN s
    ELSE IF SavedAt(s, k) = {} THEN [s EXCEPT !.saved = Append(@, <<k, x>>)]
    ELSE [s EXCEPT !.saved = [i \in 1..Len(@) |-> IF @[i][1] = k /\ @[i][2][2] = -9 THEN <<k, x>> ELSE @[i]]]
Expected(s, k) == IF Settled(Base(s)) /\ SavedAt(s, k) # {} THEN s.saved[CHOOSE i \in SavedAt(s, k) : TRUE][2] ELSE <<-9, -9, -9>>
\* A successful save of the current image: the new content and its meaning.
Written(s, T, f, x) ==
    LET s1 == AddSaved(SetFile(s, f, x), SaveKey(s, T), x)
        p == Pic(s, T, Cur(s))
        n == Cur(s)
        f2 == CASE Bpp(n.f) = 1 -> IL_LUMINANCE [] Bpp(n.f) = 2 -> IL_LUMINANCE_ALPHA [] Bpp(n.f) = 3 -> IL_RGB [] Bpp(n.f) = 4 -> IL_RGBA [] OTHER -> -9
        t2 == CASE Bpc(n.t) = 1 -> IL_UNSIGNED_BYTE [] Bpc(n.t) = 2 -> IL_UNSIGNED_SHORT [] Bpc(n.t) = 4 -> IL_UNSIGNED_INT [] OTHER -> IL_DOUBLE
    IN IF T = IL_RAW
       THEN (IF f2 = -9 \/ ~Exactly(n.dat) \/ n.t = IL_FLOAT \/ <<T, x, 0>> \in DOMAIN s1.memo THEN s1
             ELSE [s1 EXCEPT !.memo = (<<T, x, 0>> :> [r |-> 1, n |-> [TexNode(NewNode, n.w, n.h, n.d, f2, t2, n.dat, 0) EXCEPT !.o = IL_ORIGIN_UPPER_LEFT]]) @@ @])
       ELSE IF p = NoPic \/ <<T, x>> \in DOMAIN s1.pics THEN s1 ELSE [s1 EXCEPT !.pics = (<<T, x>> :> p) @@ @]
Sized(x) == x[1] >= 0
\* Save to a named file.  c.o = [exists, size, hi, lo]; x: the content afterwards.
Save(s, c, T, f) ==
    LET x == <<c.o[2], c.o[3], c.o[4]>>
        old == IF HasFile(s, f) THEN <<1>> \o s.files[f] ELSE <<0, -9, -9, -9>>
        refused == [ResO(s, 0, old, Some) EXCEPT !.ok = TRUE]
        y == Stores(s, T, Cur(s)).y
        want == Expected(s, SaveKey(s, T))
        s0 == IF c.o[1] = 1 THEN SetFile(s, f, x) ELSE DropFile(s, f)
        failed == ResO(s0, 0, Wild, Some)
    IN IF T \notin SaveByName \cup {IL_MNG} THEN refused
       ELSE IF s.st[IL_FILE_MODE] = 0 /\ HasFile(s, f) THEN refused
       ELSE IF s.fault /\ c.r = 0 THEN failed
       ELSE IF y = "no" THEN failed
       ELSE IF c.r = 0 /\ y = "?" THEN failed
       ELSE [ResO(Written(s, T, f, x), 1, <<1>> \o want, None) EXCEPT !.ok = c.o[1] = 1 /\ c.o[2] > 0]
\* Save through a handle at some offset.  c.o = [what precedes is intact, size, hi, lo, how far the handle moved]
SaveF(s, c, T, f) ==
    LET x == <<c.o[2], c.o[3], c.o[4]>>
        want == Expected(s, SaveKey(s, T))
        y == Stores(s, T, Cur(s)).y
        failed == [ResO(SetFile(s, f, x), 0, <<1, -9, -9, -9, -9>>, Some) EXCEPT !.ok = TRUE]
    IN IF T \notin SaveTypes THEN [failed EXCEPT !.o = <<1, 0, -9, -9, 0>>]
       ELSE IF (s.fault \/ y = "?") /\ c.r = 0 THEN failed
       ELSE IF y = "no" THEN failed
       ELSE [ResO(Written(s, T, f, x), c.o[2], <<1>> \o want \o <<c.o[2]>>, None) EXCEPT !.ok = c.o[2] > 0]
\* Size query.
SaveQ(s, c, T) ==
    LET y == Stores(s, T, Cur(s)).y
        k == SaveKey(s, T)
        want == Expected(s, k)[1]
    IN IF T \notin SaveTypes \/ y = "no" THEN Res(s, 0, Maybe)
       ELSE IF s.fault /\ c.r = 0 THEN Res(s, 0, Some)
       ELSE IF y = "?" /\ c.r = 0 /\ want = -9 THEN Res(s, 0, Maybe)
       ELSE [Res(AddSaved(s, k, <<c.r, -9, -9>>), IF want = -9 THEN -999 ELSE want, Maybe) EXCEPT !.ok = c.r > 0]
\* Save into memory.  c.o = [capacity, size, hi, lo], c.r = bytes written (-1: the driver made no call)
SaveL(s, c, T, f, cap) ==
    LET x == <<c.o[2], c.o[3], c.o[4]>>
        k == SaveKey(s, T)
        want == Expected(s, k)
        y == Stores(s, T, Cur(s)).y
        failed == ResO(SetFile(s, f, x), 0, <<-9, 0, -9, -9>>, Some)
    IN IF s.fault /\ c.r = -1 THEN [Res(s, -1, Some) EXCEPT !.o = Wild]
       ELSE IF s.fault /\ c.r = 0 THEN failed
       ELSE IF c.r = -1 THEN [Res(s, -1, Maybe) EXCEPT !.o = Wild, !.ok = T \notin SaveTypes \/ y # "yes" \/ cap >= 0]
       ELSE IF T \notin SaveTypes \/ y = "no" THEN failed
       ELSE IF c.r = 0 /\ y = "?" /\ want = <<-9, -9, -9>> THEN failed
       ELSE IF c.r = 0 THEN [failed EXCEPT !.ok = (want[1] = -9 /\ cap >= 0) \/ want[1] > c.o[1]]
       ELSE [ResO(Written(s, T, f, x), c.o[2], <<-9>> \o want, None) EXCEPT !.ok = c.o[2] <= c.o[1] /\ (cap # -1 \/ c.o[2] = c.o[1])]

\* ---- what loading gives
OpenNode == [NewNode EXCEPT !.w = -9, !.h = -9, !.d = -9, !.f = -9, !.t = -9, !.o = -9, !.du = -9, !.ox = -9, !.oy = -9, !.cb = -9,
    !.pt = -9, !.pal = Wild, !.dat = Wild, !.fl = Wild, !.N = WildSub, !.M = WildSub, !.L = WildSub, !.F = WildSub]
Plain(s) == s.st[IL_ORIGIN_SET] = 0 /\ s.st[IL_FORMAT_SET] = 0 /\ s.st[IL_TYPE_SET] = 0 /\ s.st[IL_CONV_PAL] = 0 /\ s.st[IL_USE_KEY_COLOUR] = 0
\* The normalised form [ok, n] of one image: in the requested layout, with the same colours.
\* (A raw file says nothing about the origin: it is taken to be the requested one.)
NormOne(s, n) ==
    LET n1 == IF s.st[IL_ORIGIN_SET] = 1 /\ s.st[IL_ORIGIN_MODE] # n.o THEN FlipStored(n) ELSE n
        t == IF s.st[IL_TYPE_SET] = 1 THEN s.st[IL_TYPE_MODE] ELSE n.t
        f0 == IF s.st[IL_FORMAT_SET] = 1 THEN s.st[IL_FORMAT_MODE] ELSE n.f
        f == IF f0 = IL_COLOUR_INDEX /\ (s.st[IL_CONV_PAL] = 1 \/ Bpc(t) # 1) THEN IL_BGR ELSE f0
    IN IF f = n.f /\ t = n.t THEN [ok |-> TRUE, n |-> n1] ELSE ConvImage(s, n1, f, t)
RECURSIVE NormTree(_, _)
NormTree(s, n) ==
    LET r == NormOne(s, n)
        sub(k) == IF n[k] = <<>> THEN [ok |-> TRUE, n |-> <<>>] ELSE IF n[k] = WildSub THEN [ok |-> TRUE, n |-> WildSub]
                  ELSE LET q == NormTree(s, n[k][1]) IN [ok |-> q.ok, n |-> <<q.n>>]
        N == sub("N") M == sub("M") L == sub("L") F == sub("F")
    IN [ok |-> r.ok /\ N.ok /\ M.ok /\ L.ok /\ F.ok, n |-> [r.n EXCEPT !.N = N.n, !.M = M.n, !.L = L.n, !.F = F.n]]
\* An image of which only the requested layout is known.
NormOpen(s) == [OpenNode EXCEPT
    !.o = IF s.st[IL_ORIGIN_SET] = 1 THEN s.st[IL_ORIGIN_MODE] ELSE -9,
    !.f = IF s.st[IL_FORMAT_SET] = 1 /\ s.st[IL_USE_KEY_COLOUR] = 0 THEN s.st[IL_FORMAT_MODE] ELSE -9,
    !.t = IF s.st[IL_TYPE_SET] = 1 THEN s.st[IL_TYPE_MODE] ELSE -9]
Knobs(s) == (s.st[IL_PCD_PICNUM] - 2) + 1000 * (s.st[IL_PNG_ALPHA_INDEX] + 1) + 1000000 * s.st[IL_KEEP_DXTC_DATA]
NewImg(s, n) == SetCur(s, n)
\* What content x means as a file of type T, where its bytes are known.
MeaningOf(s, T, x) == LET F == {f \in DOMAIN s.raw : f \in DOMAIN s.files /\ s.files[f] = x} IN
    IF F = {} THEN NoDecode ELSE Meaning(T, s.raw[CHOOSE f \in F : TRUE])
\* Load content x as type T into the current image.
Content(s, c, T, x) ==
    LET k == IF x \in s.spoilt THEN <<T + 10000 * (CASE c.op = "LoadF" -> 1 [] c.op = "LoadL" -> 2 [] OTHER -> 3), x, Knobs(s)>> ELSE <<T, x, Knobs(s)>>   \* damaged contents: the same way of loading gives the same
        known == k \in DOMAIN s.memo
        m == s.memo[k]
        pic == IF <<T, x>> \in DOMAIN s.pics THEN s.pics[<<T, x>>] ELSE NoPic
        keyed == s.st[IL_USE_KEY_COLOUR] = 1
        dec == MeaningOf(s, T, x)
        failed == Res(NewImg(s, OpenNode), 0, Some)
        memo0(q) == IF known THEN q ELSE [q EXCEPT !.memo = (k :> [r |-> 0]) @@ @]
    IN IF s.path # <<>> THEN [failed EXCEPT !.r = -999, !.er = Maybe]
       ELSE IF s.fault THEN [Res(NewImg(s, OpenNode), c.r, IF c.r = 0 THEN Some ELSE Maybe) EXCEPT !.ok = c.r \in {0, 1}]
       ELSE IF known /\ m.r = 0 THEN failed
       ELSE IF known /\ Plain(s) THEN Res(NewImg(s, m.n), 1, Maybe)
       ELSE IF known /\ ~keyed
            THEN LET q == NormTree(s, IF T = IL_RAW /\ s.st[IL_ORIGIN_SET] = 1 THEN [m.n EXCEPT !.o = s.st[IL_ORIGIN_MODE]] ELSE m.n) IN
                 IF q.ok THEN Res(NewImg(s, q.n), 1, Maybe) ELSE [failed EXCEPT !.r = -999, !.er = Maybe]
       ELSE IF dec.ok /\ Plain(s) THEN Res([NewImg(s, dec.n) EXCEPT !.pend = k], 1, Maybe)
       ELSE IF c.r = 0 THEN [failed EXCEPT !.s = IF Plain(s) THEN memo0(@) ELSE @, !.ok = pic = NoPic /\ ~known]
       ELSE [Res([NewImg(s, NormOpen(s)) EXCEPT !.want = IF Plain(s) THEN pic ELSE NoPic, !.pend = IF Plain(s) THEN k ELSE <<>>], 1, Maybe)
             EXCEPT !.ok = c.r = 1]
LoadAs(s, c, T, f) ==
    IF T \notin LoadTypes THEN Fail(s)
    ELSE IF ~HasFile(s, f) THEN Fail(s)
    ELSE Content(s, c, T, s.files[f])
\* Detected type of a content: known from how it was made, else learnt once and the same ever after.
MadeAs(s, x) == {T \in Signed : <<T, x>> \in DOMAIN s.pics}
DetOf(s, x) == IF MadeAs(s, x) # {} THEN CHOOSE T \in MadeAs(s, x) : TRUE
               ELSE IF <<0, x, 0>> \in DOMAIN s.memo THEN s.memo[<<0, x, 0>>].r
               ELSE IF \E q \in s.plainfiles : q = x THEN IL_TYPE_UNKNOWN
               ELSE -999
Detect(s, c, x, o) ==
    IF s.fault THEN [ResO(s, -999, Wild, Maybe) EXCEPT !.ok = c.r = 0 \/ c.r \in Detectable]
    ELSE LET d == DetOf(s, x) IN
         [ResO(IF d = -999 THEN [s EXCEPT !.memo = (<<0, x, 0>> :> [r |-> c.r]) @@ @] ELSE s, d, o, Maybe) EXCEPT !.ok = c.r = 0 \/ c.r \in Detectable]
IsValidAs(s, c, T, x, o) ==
    IF T \notin Validators THEN ResO(s, 0, o, Some)
    ELSE IF s.fault THEN [ResO(s, -999, Wild, Maybe) EXCEPT !.ok = c.r \in {0, 1}]
    ELSE LET k == <<-T, x, 0>>
             d == IF MadeAs(s, x) # {} /\ T \in Signed THEN B(T \in MadeAs(s, x))
                  ELSE IF \E q \in s.plainfiles : q = x THEN 0
                  ELSE IF k \in DOMAIN s.memo THEN s.memo[k].r ELSE -999
         IN [ResO(IF d = -999 THEN [s EXCEPT !.memo = (k :> [r |-> c.r]) @@ @] ELSE s, d, o, Maybe) EXCEPT !.ok = c.r \in {0, 1}]

\* Asked by name, the extension has to fit as well.
ByName(e, T) ==
    CASE T = IL_TIF -> "?"
      [] T = IL_ILBM /\ e = "iff" -> "yes"
      [] TypeOfExt(e) # T -> "no"
      [] e \in {"bw", "rgb", "rgba", "dib", "ch", "sct"} -> "?"
      [] OTHER -> "yes"
IsValidName(s, c, T, f) ==
    LET y == ByName(Ext(f), T)
        r == IsValidAs(s, c, T, s.files[f], <<>>)
    IN IF T \notin Validators THEN Res(s, 0, Some)
       ELSE IF ~HasFile(s, f) THEN Res(s, 0, Some)
       ELSE IF y = "no" THEN Res(s, 0, Maybe)
       ELSE IF y = "?" /\ c.r = 0 THEN Res(s, 0, Maybe)
       ELSE r

\* Contents that bear the mark of no known format.
Starts(d, m) == Len(d) >= Len(m) /\ \A k \in 1..Len(m) : m[k] = -1 \/ d[k] = m[k]
Marks == { <<255, 216>>, <<68, 68, 83, 32>>, <<137, 80, 78, 71>>, <<66, 77>>, <<66, 76, 80>>, <<71, 73, 70, 56>>, <<35, 63>>, <<105, 99, 110, 115>>,
    <<70, 79, 82, 77>>, <<73, 87, 105>>, <<171, 75, 84, 88>>, <<87, 105, 108, 108>>, <<73, 68, 83, 84>>, <<73, 68, 51>>, <<10>>, <<83, 128>>,
    <<80>>, <<56, 66, 80, 83>>, <<1, 218>>, <<89, 166, 106, 149>>, <<73, 73>>, <<77, 77>>, <<0, 32, 175, 48>>, <<86, 84, 70>>, <<47, 42>>, <<100, 105, 99>> }
TgaLike(d) == Len(d) >= 18 /\ d[3] \in {0, 1, 2, 3, 9, 10, 11}
\* Scitex files carry their mark further in; so do DICOM files, whose mark nothing else bears.
NoMark(d) == /\ ~TgaLike(d) /\ \A m \in Marks : ~Starts(d, m)
             /\ ~(Len(d) > 81 /\ d[81] \in {67, 72} /\ d[82] \in {72, 84}) /\ ~(Len(d) >= 132 /\ d[129] = 68)

\* ---- handlers
HandlerAt(h, e) == {k \in 1..Len(h) : h[k].e = e}
Without(h, e) == SelectSeq(h, LAMBDA q : q.e # e)
Register(s, w, e, p) == IF HandlerAt(s[w], e) # {} THEN Res(s, -999, Maybe)          \* the first one stays
                        ELSE Same([s EXCEPT ![w] = Append(@, [e |-> e, p |-> p])], 1)
Remove(s, w, e) == IF HandlerAt(s[w], e) = {} THEN Res(s, 0, Maybe) ELSE Same([s EXCEPT ![w] = Without(@, e)], 1)
ProcRet(s, p) == IF p \in DOMAIN s.prets THEN s.prets[p] ELSE 0
Made(p) == [TexNode(NewNode, p + 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, Rep(p, p + 1), 0) EXCEPT !.o = IL_ORIGIN_LOWER_LEFT]
\* Loading by name: a handler, else by the extension, else by the content.
LoadName(s, c, f) ==
    LET e == Ext(f)
        H == IF e = "." THEN {} ELSE HandlerAt(s.hl, e)
        T == TypeOfExt(e)
    IN IF H # {}
       THEN LET p == s.hl[CHOOSE k \in H : TRUE].p
                s1 == [s EXCEPT !.plog = Append(@, p)]
            IN IF ProcRet(s, p) = 0 THEN Res(IF s.path = <<>> THEN NewImg(s1, Made(p)) ELSE NewImg(s1, OpenNode), 1, None)
               ELSE Res(s1, 0, <<ProcRet(s, p)>>)
       ELSE IF T \in LoadTypes THEN LoadAs(s, c, T, f)
       ELSE IF ~HasFile(s, f) THEN Fail(s)
       ELSE IF s.fault THEN Content(s, c, 0, s.files[f])
       ELSE LET D == DetOf(s, s.files[f]) IN
            IF D = IL_TYPE_UNKNOWN THEN Fail(s)
            ELSE IF D = -999 THEN [Res(NewImg(s, OpenNode), c.r, IF c.r = 0 THEN Some ELSE Maybe) EXCEPT !.ok = c.r \in {0, 1}]
            ELSE LoadAs(s, c, D, f)
SaveName(s, c, f) ==
    LET e == Ext(f)
        T == SaveOfExt(e)
        H == IF e = "." THEN {} ELSE HandlerAt(s.hs, e)
        p == s.hs[CHOOSE k \in H : TRUE].p
        s1 == [s EXCEPT !.plog = Append(@, 100 + p)]
        old == IF HasFile(s, f) THEN <<1>> \o s.files[f] ELSE <<0, -9, -9, -9>>
    IN IF T # IL_TYPE_UNKNOWN THEN Save(s, c, T, f)
       ELSE IF H # {} THEN (IF ProcRet(s, p) = 0 THEN ResO(s1, 1, old, None) ELSE ResO(s1, 0, old, Some))
       ELSE ResO(s, 0, old, Some)

\* ---- raw data
RawNode(s, w, h, d, bpp, dat) ==
    [TexNode(NewNode, w, h, d, CASE bpp = 1 -> IL_LUMINANCE [] bpp = 3 -> IL_RGB [] OTHER -> IL_RGBA, IL_UNSIGNED_BYTE, dat, 0) EXCEPT !.o = IL_ORIGIN_UPPER_LEFT]
\* x: content; c.a = [.. w, h, d, bpp]
LoadData(s, c, f, w, h, d, bpp) ==
    LET x == s.files[f]
        w1 == Max2(w, 1) h1 == Max2(h, 1) d1 == Max2(d, 1)
        need == w1 * h1 * d1 * bpp
        dat == IF f \in DOMAIN s.raw /\ Len(s.raw[f]) >= need THEN SubSeq(s.raw[f], 1, need)
               ELSE IF x[1] = need THEN <<-1, x[2], x[3]>> ELSE Wild
        n == RawNode(s, w1, h1, d1, bpp, dat)
        q == NormOne(s, n)
    IN IF ~HasFile(s, f) THEN Fail(s)
       ELSE IF s.fault THEN [Res(NewImg(s, OpenNode), c.r, IF c.r = 0 THEN Some ELSE Maybe) EXCEPT !.ok = c.r \in {0, 1}]
       ELSE IF bpp \notin {1, 3, 4} \/ w < 0 \/ h < 0 \/ d < 0 \/ Huge(w1, h1, d1, bpp) \/ need > Cap \/ x[1] < need THEN Fail(s)
       ELSE IF s.path # <<>> THEN Res(NewImg(s, OpenNode), -999, Maybe)
       ELSE Res(NewImg(s, IF q.ok THEN q.n ELSE OpenNode), IF q.ok THEN 1 ELSE -999, Maybe)
\* c.o = [exists, size, hi, lo]
SaveData(s, c, f) ==
    LET n == Cur(s)
        x == <<c.o[2], c.o[3], c.o[4]>>
        old == IF HasFile(s, f) THEN <<1>> \o s.files[f] ELSE <<0, -9, -9, -9>>
        s1 == SetFile(s, f, x)
        s2 == IF Known(n.dat) THEN [s1 EXCEPT !.raw = (f :> n.dat) @@ @] ELSE [s1 EXCEPT !.raw = [g \in DOMAIN @ \ {f} |-> @[g]]]
    IN IF s.st[IL_FILE_MODE] = 0 /\ HasFile(s, f) THEN ResO(s, 0, old, Some)
       ELSE IF s.fault /\ c.r = 0 THEN ResO(IF c.o[1] = 1 THEN s1 ELSE DropFile(s, f), 0, Wild, Some)
       ELSE ResO(s2, 1, <<1, Size(n)>> \o (IF IsHash(n.dat) THEN <<n.dat[2], n.dat[3]>> ELSE <<-9, -9>>), None)

Unraw(s, f) == [s EXCEPT !.raw = [g \in DOMAIN @ \ {f} |-> @[g]]]
Ns(n) == [k \in {n} |-> 0]
FileOps == {"Vfs", "RealFs", "Put", "Import", "Trunc", "Poke", "Prefix", "Rm", "Exists", "Save", "SaveImage", "SaveF", "SaveLQ", "SaveL",
            "Load", "LoadImage", "LoadF", "LoadL", "Det", "DetF", "DetL", "IsValid", "IsValidF", "IsValidL", "TypeFromExt",
            "RegLoad", "RegSave", "RemLoad", "RemSave", "ProcRet", "ProcLog", "LoadData", "LoadDataF", "LoadDataL", "SaveData", "FailIo", "IoInfo", "FailOpen", "Bytes"}
DoFile(s, c) ==
    CASE c.op \in {"Vfs", "RealFs"} -> Res(s, -999, None)
      [] c.op = "Put" -> [ResO(LET s1 == Unraw(SetFile(s, c.sa, c.o), c.sa)
                                   s2 == IF c.d # <<>> /\ Known(c.d) /\ NoMark(c.d) THEN [s1 EXCEPT !.plainfiles = @ \cup {c.o}, !.spoilt = @ \cup {c.o}] ELSE [s1 EXCEPT !.spoilt = @ \cup {c.o}]
                               IN IF c.d # <<>> /\ Known(c.d) THEN [s2 EXCEPT !.raw = (c.sa :> c.d) @@ @] ELSE s2, -999, Wild, None) EXCEPT !.ok = Len(c.o) = 3]
      [] c.op \in {"Import", "Trunc", "Poke", "Prefix"} -> [ResO([Unraw(SetFile(s, c.sa, c.o), c.sa) EXCEPT !.spoilt = IF c.op = "Poke" /\ ~\E T \in LoadTypes : <<T, c.o>> \in DOMAIN s.pics THEN @ \cup {c.o} ELSE @], -999, Wild, None) EXCEPT !.ok = Len(c.o) = 3]
      [] c.op = "Rm" -> Res(DropFile(s, c.sa), -999, None)
      [] c.op = "Exists" -> ResO(s, B(HasFile(s, c.sa)), IF HasFile(s, c.sa) THEN s.files[c.sa] ELSE <<>>, None)
      [] c.op = "Bytes" -> ResO(s, -999, Wild, None)
      [] c.op = "Save" -> IF c.a[1] = IL_TYPE_UNKNOWN THEN SaveName(Unraw(s, c.sa), c, c.sa) ELSE Save(Unraw(s, c.sa), c, c.a[1], c.sa)
      [] c.op = "SaveImage" -> SaveName(Unraw(s, c.sa), c, c.sa)
      [] c.op = "SaveF" -> SaveF(Unraw(s, c.sa), c, c.a[1], c.sa)
      [] c.op = "SaveLQ" -> SaveQ(s, c, c.a[1])
      [] c.op = "SaveL" -> SaveL(Unraw(s, c.sa), c, c.a[1], c.sa, c.a[2])
      [] c.op = "Load" -> IF c.a[1] = IL_TYPE_UNKNOWN THEN LoadName(s, c, c.sa) ELSE LoadAs(s, c, c.a[1], c.sa)
      [] c.op = "LoadImage" -> LoadName(s, c, c.sa)
      [] c.op \in {"LoadF", "LoadL"} ->
            IF ~HasFile(s, c.sa) THEN [ResO(NewImg(s, OpenNode), c.r, Wild, Maybe) EXCEPT !.ok = c.r \in {0, 1}]
            ELSE LET D == IF c.a[1] = IL_TYPE_UNKNOWN THEN DetOf(s, s.files[c.sa]) ELSE c.a[1]
                     o == IF c.op = "LoadL" THEN <<1, s.files[c.sa][1]>> ELSE <<IF s.fault THEN -9 ELSE 0, s.files[c.sa][1]>>     \* the handle is where it was
                 IN IF D = -999 \/ (s.fault /\ D \in LoadTypes \cup {IL_TYPE_UNKNOWN}) THEN [ResO(NewImg(s, OpenNode), c.r, o, Maybe) EXCEPT !.ok = c.r \in {0, 1}]
                    ELSE IF D \notin LoadTypes THEN ResO(s, 0, o, Maybe)
                    ELSE [LoadAs(s, c, D, c.sa) EXCEPT !.o = o]
      [] c.op = "Det" -> IF ~HasFile(s, c.sa) THEN Fail(s) ELSE Detect(s, c, s.files[c.sa], <<>>)
      [] c.op = "DetF" -> IF ~HasFile(s, c.sa) THEN ResO(s, -999, Wild, Maybe) ELSE Detect(s, c, s.files[c.sa], <<0, s.files[c.sa][1]>>)
      [] c.op = "DetL" -> IF ~HasFile(s, c.sa) THEN ResO(s, -999, Wild, Maybe) ELSE Detect(s, c, s.files[c.sa], <<1, s.files[c.sa][1]>>)
      [] c.op = "IsValid" -> IsValidName(s, c, c.a[1], c.sa)
      [] c.op = "IsValidF" -> IF ~HasFile(s, c.sa) THEN ResO(s, -999, Wild, Maybe) ELSE IsValidAs(s, c, c.a[1], s.files[c.sa], <<0, s.files[c.sa][1]>>)
      [] c.op = "IsValidL" -> IF ~HasFile(s, c.sa) THEN ResO(s, -999, Wild, Maybe) ELSE IsValidAs(s, c, c.a[1], s.files[c.sa], <<1, s.files[c.sa][1]>>)
      [] c.op = "TypeFromExt" -> Res(s, TypeOfExt(Ext(c.sa)), Maybe)
      [] c.op = "RegLoad" -> Register(s, "hl", Lower(c.sa), c.a[1])
      [] c.op = "RegSave" -> Register(s, "hs", Lower(c.sa), c.a[1])
      [] c.op = "RemLoad" -> Remove(s, "hl", Lower(c.sa))
      [] c.op = "RemSave" -> Remove(s, "hs", Lower(c.sa))
      [] c.op = "ProcRet" -> Res([s EXCEPT !.prets = (c.a[1] :> c.a[2]) @@ @], -999, None)
      [] c.op = "ProcLog" -> ResO([s EXCEPT !.plog = <<>>], -999, s.plog, None)
      [] c.op = "LoadDataF" -> IF ~HasFile(s, c.sa) THEN ResO(s, -999, Wild, Maybe)
                               ELSE [LoadData(s, c, c.sa, c.a[2], c.a[3], c.a[4], c.a[5]) EXCEPT !.o = <<IF s.fault THEN -9 ELSE 0, s.files[c.sa][1]>>]
      [] c.op \in {"LoadData", "LoadDataL"} -> LoadData(s, c, c.sa, c.a[1], c.a[2], c.a[3], c.a[4])
      [] c.op = "SaveData" -> SaveData(s, c, c.sa)
      [] c.op = "FailIo" -> Res([s EXCEPT !.fault = c.a[1] > 0], -999, None)
      [] c.op = "FailOpen" -> Res([s EXCEPT !.fault = c.a[1] > 0], -999, None)
      [] c.op = "IoInfo" -> ResO([s EXCEPT !.fault = FALSE], -999, Wild, None)
===============================================================================
