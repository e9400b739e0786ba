------------------------------- MODULE ILStates ------------------------------
(* Settings, switches, strings, hints; the attribute stack; pending errors.   *)
EXTENDS ILStore

ErrMax == 32          \* errors that are kept
AttribMax == 32       \* IL_ATTRIB_STACK_MAX: levels including the bottom one

Bools == {0, 1}
Types8 == {IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE}
\* setting (named by the value that queries it) -> default
StDefault == (
    IL_ORIGIN_SET :> 0 @@ IL_ORIGIN_MODE :> IL_ORIGIN_LOWER_LEFT @@ IL_FORMAT_SET :> 0 @@ IL_FORMAT_MODE :> IL_BGRA @@
    IL_TYPE_SET :> 0 @@ IL_TYPE_MODE :> IL_UNSIGNED_BYTE @@ IL_FILE_MODE :> 0 @@ IL_CONV_PAL :> 0 @@
    IL_DEFAULT_ON_FAIL :> 0 @@ IL_USE_KEY_COLOUR :> 0 @@ IL_BLIT_BLEND :> 1 @@ IL_COMPRESS_MODE :> IL_COMPRESS_ZLIB @@
    IL_INTERLACE_MODE :> 0 @@ IL_TGA_CREATE_STAMP :> 0 @@ IL_JPG_QUALITY :> 99 @@ IL_PNG_INTERLACE :> 0 @@ IL_TGA_RLE :> 0 @@
    IL_BMP_RLE :> 0 @@ IL_SGI_RLE :> 0 @@ IL_JPG_SAVE_FORMAT :> IL_JFIF @@ IL_JPG_PROGRESSIVE :> 0 @@ IL_DXTC_FORMAT :> IL_DXT1 @@
    IL_PCD_PICNUM :> 2 @@ IL_PNG_ALPHA_INDEX :> -1 @@ IL_VTF_COMP :> IL_DXT_NO_COMP @@ IL_QUANTIZATION_MODE :> IL_WU_QUANT @@
    IL_NEU_QUANT_SAMPLE :> 15 @@ IL_MAX_QUANT_INDICES :> 256 @@ IL_KEEP_DXTC_DATA :> 0 @@ IL_NVIDIA_COMPRESS :> 0 @@ IL_SQUISH_COMPRESS :> 0)
Settings == DOMAIN StDefault
Strings == {IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING,
            IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING,
            IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING}
StrDefault == [k \in Strings |-> "(null)"]
\* switch -> the setting it controls
SwitchOf == (IL_ORIGIN_SET :> IL_ORIGIN_SET @@ IL_FORMAT_SET :> IL_FORMAT_SET @@ IL_TYPE_SET :> IL_TYPE_SET @@
    IL_FILE_OVERWRITE :> IL_FILE_MODE @@ IL_CONV_PAL :> IL_CONV_PAL @@ IL_DEFAULT_ON_FAIL :> IL_DEFAULT_ON_FAIL @@
    IL_USE_KEY_COLOUR :> IL_USE_KEY_COLOUR @@ IL_BLIT_BLEND :> IL_BLIT_BLEND @@ IL_SAVE_INTERLACED :> IL_INTERLACE_MODE @@
    IL_JPG_PROGRESSIVE :> IL_JPG_PROGRESSIVE @@ IL_NVIDIA_COMPRESS :> IL_NVIDIA_COMPRESS @@ IL_SQUISH_COMPRESS :> IL_SQUISH_COMPRESS)
\* settings that ilSetInteger accepts, and which values
Settable == {IL_FORMAT_MODE, IL_KEEP_DXTC_DATA, IL_MAX_QUANT_INDICES, IL_NEU_QUANT_SAMPLE, IL_ORIGIN_MODE, IL_QUANTIZATION_MODE,
             IL_TYPE_MODE, IL_BMP_RLE, IL_DXTC_FORMAT, IL_JPG_SAVE_FORMAT, IL_JPG_QUALITY, IL_PNG_INTERLACE, IL_PCD_PICNUM,
             IL_PNG_ALPHA_INDEX, IL_SGI_RLE, IL_TGA_CREATE_STAMP, IL_TGA_RLE, IL_VTF_COMP}
Valid(k, v) ==
    CASE k = IL_FORMAT_MODE -> v \in {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}
      [] k = IL_MAX_QUANT_INDICES -> v >= 2 /\ v <= 256
      [] k = IL_NEU_QUANT_SAMPLE -> v >= 1 /\ v <= 30
      [] k = IL_ORIGIN_MODE -> v \in {IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT}
      [] k = IL_QUANTIZATION_MODE -> v \in {IL_WU_QUANT, IL_NEU_QUANT}
      [] k = IL_TYPE_MODE -> v \in Types8
      [] k = IL_COMPRESS_MODE -> v \in {IL_COMPRESS_NONE, IL_COMPRESS_RLE, IL_COMPRESS_ZLIB}
      [] k = IL_DXTC_FORMAT -> v \in {IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, IL_3DC, IL_RXGB, IL_ATI1N, IL_DXT1A}
      [] k = IL_JPG_SAVE_FORMAT -> v \in {IL_JFIF, IL_EXIF}
      [] k = IL_JPG_QUALITY -> v >= 0 /\ v <= 99
      [] k = IL_PCD_PICNUM -> v >= 0 /\ v <= 2
      [] k = IL_PNG_ALPHA_INDEX -> v >= -1 /\ v <= 255
      [] k = IL_VTF_COMP -> v \in {IL_DXT1, IL_DXT3, IL_DXT5, IL_DXT1A, IL_DXT_NO_COMP}
      [] OTHER -> v \in Bools
\* which settings a push keeps, per bit
GroupOf(bit) ==
    CASE bit = IL_ORIGIN_BIT -> {IL_ORIGIN_MODE, IL_ORIGIN_SET}
      [] bit = IL_FORMAT_BIT -> {IL_FORMAT_MODE, IL_FORMAT_SET}
      [] bit = IL_TYPE_BIT -> {IL_TYPE_MODE, IL_TYPE_SET}
      [] bit = IL_FILE_BIT -> {IL_FILE_MODE}
      [] bit = IL_PAL_BIT -> {IL_CONV_PAL}
      [] bit = IL_LOADFAIL_BIT -> {IL_DEFAULT_ON_FAIL}
      [] bit = IL_COMPRESS_BIT -> {IL_COMPRESS_MODE}
      [] bit = IL_FORMAT_SPECIFIC_BIT -> {IL_TGA_CREATE_STAMP, IL_JPG_QUALITY, IL_PNG_INTERLACE, IL_TGA_RLE, IL_BMP_RLE, IL_SGI_RLE,
             IL_JPG_SAVE_FORMAT, IL_DXTC_FORMAT, IL_PCD_PICNUM, IL_PNG_ALPHA_INDEX, IL_JPG_PROGRESSIVE, IL_VTF_COMP}
AttribBits == {IL_ORIGIN_BIT, IL_FORMAT_BIT, IL_TYPE_BIT, IL_FILE_BIT, IL_PAL_BIT, IL_LOADFAIL_BIT, IL_COMPRESS_BIT, IL_FORMAT_SPECIFIC_BIT}
HasBit(m, b) == IF m < 0 THEN TRUE ELSE (m \div b) % 2 = 1          \* -1: all bits
Kept(m) == UNION {GroupOf(b) : b \in {b \in AttribBits : HasBit(m, b)}}

\* Queries that need no image; -999 stands for a name that is none of these.
QueryImage(s, k) ==
    LET n == Cur(s) IN
    CASE k = IL_IMAGE_BITS_PER_PIXEL -> 8 * Bpp(n.f) * Bpc(n.t)
      [] k = IL_IMAGE_BYTES_PER_PIXEL -> Bpp(n.f) * Bpc(n.t)
      [] k = IL_IMAGE_BPC -> Bpc(n.t)
      [] k = IL_IMAGE_CHANNELS -> Bpp(n.f)
      [] k = IL_IMAGE_CUBEFLAGS -> n.cb
      [] k = IL_IMAGE_WIDTH -> n.w
      [] k = IL_IMAGE_HEIGHT -> n.h
      [] k = IL_IMAGE_DEPTH -> n.d
      [] k = IL_IMAGE_DURATION -> n.du
      [] k = IL_IMAGE_FORMAT -> n.f
      [] k = IL_IMAGE_TYPE -> n.t
      [] k = IL_IMAGE_SIZE_OF_DATA -> Size(n)
      [] k = IL_IMAGE_PLANESIZE -> n.w * n.h * Bpp(n.f) * Bpc(n.t)
      [] k = IL_IMAGE_OFFX -> n.ox
      [] k = IL_IMAGE_OFFY -> n.oy
      [] k = IL_IMAGE_ORIGIN -> n.o
      [] k = IL_NUM_IMAGES -> ChainLen(n, "N")
      [] k = IL_NUM_MIPMAPS -> ChainLen(n, "M")
      [] k = IL_NUM_LAYERS -> ChainLen(n, "L")
      [] k = IL_NUM_FACES -> ChainLen(n, "F")
      [] k = IL_PALETTE_TYPE -> n.pt
      [] k = IL_PALETTE_BPP -> PalBpp(n.pt)
      [] k = IL_PALETTE_NUM_COLS -> IF n.pt = IL_PAL_NONE THEN 0 ELSE IF n.pal = Wild \/ IsHash(n.pal) THEN -999 ELSE Len(n.pal) \div PalBpp(n.pt)
      [] k = IL_PALETTE_BASE_TYPE -> PalBase(n.pt)
      [] OTHER -> -999
ImageQueries == {IL_IMAGE_BITS_PER_PIXEL, IL_IMAGE_BYTES_PER_PIXEL, IL_IMAGE_BPC, IL_IMAGE_CHANNELS, IL_IMAGE_CUBEFLAGS, IL_IMAGE_WIDTH,
    IL_IMAGE_HEIGHT, IL_IMAGE_DEPTH, IL_IMAGE_DURATION, IL_IMAGE_FORMAT, IL_IMAGE_TYPE, IL_IMAGE_SIZE_OF_DATA, IL_IMAGE_PLANESIZE,
    IL_IMAGE_OFFX, IL_IMAGE_OFFY, IL_IMAGE_ORIGIN, IL_NUM_IMAGES, IL_NUM_MIPMAPS, IL_NUM_LAYERS, IL_NUM_FACES, IL_PALETTE_TYPE,
    IL_PALETTE_BPP, IL_PALETTE_NUM_COLS, IL_PALETTE_BASE_TYPE}
Query(s, k) ==
    CASE k \in Settings -> s.st[k]
      [] k = IL_CUR_IMAGE -> s.cur
      [] k = IL_VERSION_NUM -> IL_VERSION
      [] k = IL_ACTIVE_IMAGE -> ActiveIdx(s, "N")
      [] k = IL_ACTIVE_MIPMAP -> ActiveIdx(s, "M")
      [] k = IL_ACTIVE_LAYER -> ActiveIdx(s, "L")
      [] k = IL_ACTIVE_FACE -> ActiveIdx(s, "F")
      [] k \in ImageQueries -> QueryImage(s, k)
      [] OTHER -> -999
Queries == Settings \cup ImageQueries \cup {IL_CUR_IMAGE, IL_VERSION_NUM, IL_ACTIVE_IMAGE, IL_ACTIVE_MIPMAP, IL_ACTIVE_LAYER, IL_ACTIVE_FACE}

SetSt(s, k, v) == [s EXCEPT !.st = [@ EXCEPT ![k] = v]]
Func(s, k, v) == IF Valid(k, v) THEN Same(SetSt(s, k, v), 1) ELSE Res(s, 0, <<IL_INVALID_PARAM>>)
SetInt(s, k, v) ==
    IF k \in Settable THEN (IF Valid(k, v) THEN Res(SetSt(s, k, v), -999, None) ELSE Res(s, -999, <<IL_INVALID_PARAM>>))
    ELSE IF k = IL_IMAGE_DURATION THEN Res(SetCur(s, [Cur(s) EXCEPT !.du = v]), -999, None)
    ELSE IF k = IL_IMAGE_OFFX THEN Res(SetCur(s, [Cur(s) EXCEPT !.ox = v]), -999, None)
    ELSE IF k = IL_IMAGE_OFFY THEN Res(SetCur(s, [Cur(s) EXCEPT !.oy = v]), -999, None)
    ELSE IF k = IL_IMAGE_CUBEFLAGS THEN Res(SetCur(s, [Cur(s) EXCEPT !.cb = v]), -999, None)
    ELSE Res(s, -999, <<IL_INVALID_ENUM>>)
Able(s, k, v) == IF k \in DOMAIN SwitchOf THEN Same(SetSt(s, SwitchOf[k], v), 1) ELSE Res(s, 0, <<IL_INVALID_ENUM>>)
IsOn(s, k, v) == IF k \in DOMAIN SwitchOf THEN Same(s, IF s.st[SwitchOf[k]] = v THEN 1 ELSE 0)
                 ELSE Res(s, 1 - v, <<IL_INVALID_ENUM>>)
HintOk(t, m) == \/ t = IL_MEM_SPEED_HINT /\ m \in {IL_FASTEST, IL_LESS_MEM, IL_DONT_CARE}
                \/ t = IL_COMPRESSION_HINT /\ m \in {IL_USE_COMPRESSION, IL_NO_COMPRESSION, IL_DONT_CARE}
Push(s, m) ==
    IF Len(s.stk) >= AttribMax - 1 THEN Res(s, -999, <<IL_STACK_OVERFLOW>>)
    ELSE Res([s EXCEPT !.stk = Append(@, [st |-> s.st, str |-> s.str]),
                       !.st = [k \in Settings |-> IF k \in Kept(m) THEN @[k] ELSE StDefault[k]],
                       !.str = IF HasBit(m, IL_FORMAT_SPECIFIC_BIT) THEN @ ELSE StrDefault], -999, None)
Pop(s) ==
    IF s.stk = <<>> THEN Res(s, -999, <<IL_STACK_UNDERFLOW>>)
    ELSE LET top == s.stk[Len(s.stk)] IN
         Res([s EXCEPT !.st = top.st, !.str = top.str, !.stk = SubSeq(@, 1, Len(@) - 1)], -999, None)

\* The record of errors: newest first; unknown codes are -1 (one error), -2 (any number).
AddErr(q, er) == LET r == er \o q IN IF Len(r) > ErrMax THEN SubSeq(r, 1, ErrMax) ELSE r
Vague(q) == \E i \in 1..Len(q) : q[i] \in {-1, -2}
GetError(s, got) ==
    IF s.errs = <<>> THEN Same(s, IL_NO_ERROR)
    ELSE IF Vague(s.errs) THEN Same([s EXCEPT !.errs = IF got = IL_NO_ERROR THEN <<>> ELSE <<-2>>], -999)
    ELSE Same([s EXCEPT !.errs = Tail(@)], Head(s.errs))
Drain(s) == IF Vague(s.errs) THEN ResO([s EXCEPT !.errs = <<>>], -999, Wild, None)
            ELSE ResO([s EXCEPT !.errs = <<>>], -999, s.errs, None)

\* What the driver's command States lists: every setting, then 2 * enabled + disabled of every switch.
AllSettings == << IL_ORIGIN_SET, IL_ORIGIN_MODE, IL_FORMAT_SET, IL_FORMAT_MODE, IL_TYPE_SET, IL_TYPE_MODE, IL_FILE_MODE, IL_CONV_PAL,
    IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_BLIT_BLEND, IL_COMPRESS_MODE, IL_INTERLACE_MODE, IL_TGA_CREATE_STAMP, IL_JPG_QUALITY, IL_PNG_INTERLACE,
    IL_TGA_RLE, IL_BMP_RLE, IL_SGI_RLE, IL_JPG_SAVE_FORMAT, IL_JPG_PROGRESSIVE, IL_DXTC_FORMAT, IL_PCD_PICNUM, IL_PNG_ALPHA_INDEX, IL_VTF_COMP,
    IL_QUANTIZATION_MODE, IL_NEU_QUANT_SAMPLE, IL_MAX_QUANT_INDICES, IL_KEEP_DXTC_DATA, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS >>
AllSwitches == << IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_FILE_OVERWRITE, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_BLIT_BLEND,
    IL_SAVE_INTERLACED, IL_JPG_PROGRESSIVE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS >>
ListStates(s) == [i \in 1..Len(AllSettings) |-> s.st[AllSettings[i]]] \o [i \in 1..Len(AllSwitches) |-> 1 + s.st[SwitchOf[AllSwitches[i]]]]
StateOps == {"States", "GetInt", "GetIntv", "GetBool", "SetInt", "Enable", "Disable", "IsEnabled", "IsDisabled", "OriginFunc", "FormatFunc", "TypeFunc",
             "CompressFunc", "Hint", "SetString", "GetString", "Push", "Pop", "GetError", "SetError", "Drain"}
DoStates(s, c) ==
    CASE c.op = "States" -> ResO(s, -999, ListStates(s), None)
      [] c.op = "GetInt" -> (IF c.a[1] \in Queries THEN Same(s, Query(s, c.a[1]))
                             ELSE IF c.a[1] = IL_DXTC_DATA_FORMAT THEN Same(s, -999) ELSE Res(s, -999, <<IL_INVALID_ENUM>>))
      [] c.op = "GetIntv" -> (IF c.a[1] \in Queries THEN ResO(s, -999, <<Query(s, c.a[1]), -77, -77, -77>>, None)
                              ELSE IF c.a[1] = IL_DXTC_DATA_FORMAT THEN ResO(s, -999, Wild, None) ELSE ResO(s, -999, Wild, <<IL_INVALID_ENUM>>))
      [] c.op = "GetBool" -> (IF c.a[1] \in Queries THEN Same(s, Query(s, c.a[1]) % 256)
                              ELSE IF c.a[1] = IL_DXTC_DATA_FORMAT THEN Same(s, -999) ELSE Res(s, -999, <<IL_INVALID_ENUM>>))
      [] c.op = "SetInt" -> SetInt(s, c.a[1], c.a[2])
      [] c.op = "Enable" -> Able(s, c.a[1], 1)
      [] c.op = "Disable" -> Able(s, c.a[1], 0)
      [] c.op = "IsEnabled" -> IsOn(s, c.a[1], 1)
      [] c.op = "IsDisabled" -> IsOn(s, c.a[1], 0)
      [] c.op = "OriginFunc" -> Func(s, IL_ORIGIN_MODE, c.a[1])
      [] c.op = "FormatFunc" -> Func(s, IL_FORMAT_MODE, c.a[1])
      [] c.op = "TypeFunc" -> Func(s, IL_TYPE_MODE, c.a[1])
      [] c.op = "CompressFunc" -> Func(s, IL_COMPRESS_MODE, c.a[1])
      [] c.op = "Hint" -> Res(IF HintOk(c.a[1], c.a[2]) /\ c.a[1] = IL_COMPRESSION_HINT THEN [s EXCEPT !.cmp = c.a[2]] ELSE s, -999, IF HintOk(c.a[1], c.a[2]) THEN None ELSE <<IL_INVALID_ENUM>>)
      [] c.op = "SetString" -> (IF c.sa = "(null)" THEN Res(s, -999, <<IL_INVALID_PARAM>>)
                                ELSE IF c.a[1] \in Strings THEN Res([s EXCEPT !.str = [@ EXCEPT ![c.a[1]] = c.sa]], -999, None)
                                ELSE Res(s, -999, <<IL_INVALID_ENUM>>))
      [] c.op = "GetString" -> (IF c.a[1] \in Strings THEN [Same(s, -999) EXCEPT !.ok = (c.sa = s.str[c.a[1]])]
                                ELSE IF c.a[1] \in {IL_VENDOR, IL_VERSION_NUM, IL_LOAD_EXT, IL_SAVE_EXT} THEN [Same(s, -999) EXCEPT !.ok = (c.sa # "(null)")]
                                ELSE [Res(s, -999, <<IL_INVALID_ENUM>>) EXCEPT !.ok = (c.sa = "(null)")])
      [] c.op = "Push" -> Push(s, c.a[1])
      [] c.op = "Pop" -> Pop(s)
      [] c.op = "GetError" -> GetError(s, c.r)
      [] c.op = "SetError" -> Res(s, -999, <<c.a[1]>>)
      [] c.op = "Drain" -> Drain(s)
===============================================================================
