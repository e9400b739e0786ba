------------------------------- MODULE ILTool --------------------------------
(* Settings of the image-utility layer and of the toolkit layer, descriptions *)
(* of errors, and the life cycle: start, shutdown, start again.               *)
EXTENDS ILFile, ILText

(* ------------------------------------------------ image-utility settings -- *)
IluFilters == {ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL}
IluPlacements == {ILU_LOWER_LEFT, ILU_LOWER_RIGHT, ILU_UPPER_LEFT, ILU_UPPER_RIGHT, ILU_CENTER}
IluDefault == [flt |-> ILU_NEAREST, plc |-> ILU_CENTER, lang |-> ILU_ENGLISH]
IluParam(s, k, v) ==
    IF k = ILU_FILTER /\ v \in IluFilters THEN Res([s EXCEPT !.ilu.flt = v], -999, None)
    ELSE IF k = ILU_PLACEMENT /\ v \in IluPlacements THEN Res([s EXCEPT !.ilu.plc = v], -999, None)
    ELSE Res(s, -999, <<ILU_INVALID_ENUM>>)
IluGet(s, k) ==
    CASE k = ILU_FILTER -> Same(s, s.ilu.flt)
      [] k = ILU_PLACEMENT -> Same(s, s.ilu.plc)
      [] k = IL_VERSION_NUM -> Same(s, ILU_VERSION)
      [] OTHER -> Res(s, -999, <<ILU_INVALID_ENUM>>)
Lang(s, l) == IF l \in Languages THEN Same([s EXCEPT !.ilu.lang = l], 1) ELSE Res(s, 0, <<IL_INVALID_ENUM>>)
\* A documented code gives its description, anything else some text.
ErrText(s, x, got) == IF CodeIdx(x) = {} THEN [Same(s, -999) EXCEPT !.ok = (got # "(null)")] ELSE [Same(s, -999) EXCEPT !.ok = (got = Text(s.ilu.lang, x))]
VendorName == "Abysmal Software"
IluVersionName == "Developer's Image Library Utilities (ILU) 1.8.0"
UtVersionName == "Developer's Image Library Utility Toolkit (ILUT) 1.8.0"
Named(s, k, got, version) ==
    CASE k = IL_VENDOR -> [Same(s, -999) EXCEPT !.ok = (got = VendorName)]
      [] k = IL_VERSION_NUM -> [Same(s, -999) EXCEPT !.ok = (got = version)]
      [] OTHER -> [Res(s, -999, <<IL_INVALID_PARAM>>) EXCEPT !.ok = (got = "(null)")]

(* --------------------------------------------------------- the toolkit ---- *)
UtDefault == (ILUT_PALETTE_MODE :> 0 @@ ILUT_FORCE_INTEGER_FORMAT :> 0 @@ ILUT_OPENGL_CONV :> 0 @@ ILUT_S3TC_FORMAT :> 0 @@ ILUT_GL_USE_S3TC :> 0
              @@ ILUT_GL_GEN_S3TC :> 0 @@ ILUT_GL_AUTODETECT_TEXTURE_TARGET :> 0 @@ ILUT_MAXTEX_WIDTH :> 256 @@ ILUT_MAXTEX_HEIGHT :> 256
              @@ ILUT_MAXTEX_DEPTH :> 1 @@ ILUT_D3D_MIPLEVELS :> 0 @@ ILUT_D3D_POOL :> 0 @@ ILUT_D3D_ALPHA_KEY_COLOR :> -1)
UtSettings == DOMAIN UtDefault
UtSwitches == {ILUT_PALETTE_MODE, ILUT_FORCE_INTEGER_FORMAT, ILUT_OPENGL_CONV, ILUT_GL_USE_S3TC, ILUT_GL_GEN_S3TC, ILUT_GL_AUTODETECT_TEXTURE_TARGET}
UtSettable == UtSettings \ {ILUT_PALETTE_MODE, ILUT_FORCE_INTEGER_FORMAT, ILUT_OPENGL_CONV}
UtValid(k, v) ==
    CASE k = ILUT_S3TC_FORMAT -> v \in {IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5}
      [] k \in {ILUT_MAXTEX_WIDTH, ILUT_MAXTEX_HEIGHT, ILUT_MAXTEX_DEPTH} -> v >= 1
      [] k = ILUT_D3D_MIPLEVELS -> v >= 0
      [] k = ILUT_D3D_POOL -> v \in 0..2
      [] k = ILUT_D3D_ALPHA_KEY_COLOR -> TRUE
      [] OTHER -> v \in Bools
\* Groups: what the graphics interfaces have in common is kept with either.
UtCommon == {ILUT_S3TC_FORMAT, ILUT_MAXTEX_WIDTH, ILUT_MAXTEX_HEIGHT, ILUT_MAXTEX_DEPTH}
UtGroup(bit) == IF bit = ILUT_OPENGL_BIT THEN UtSwitches \cup UtCommon ELSE {ILUT_D3D_MIPLEVELS, ILUT_D3D_POOL, ILUT_D3D_ALPHA_KEY_COLOR} \cup UtCommon
UtKept(m) == UNION {UtGroup(b) : b \in {b \in {ILUT_OPENGL_BIT, ILUT_D3D_BIT} : HasBit(m, b)}}
UtMax == 32
UtSet(s, k, v) == [s EXCEPT !.ut = [@ EXCEPT ![k] = v]]
UtSetInt(s, k, v) == IF k \in UtSettable THEN (IF UtValid(k, v) THEN Res(UtSet(s, k, v), -999, None) ELSE Res(s, -999, <<IL_INVALID_PARAM>>))
                     ELSE Res(s, -999, <<ILUT_INVALID_ENUM>>)
UtGetInt(s, k) == IF k \in UtSettings THEN Same(s, s.ut[k]) ELSE IF k = IL_VERSION_NUM THEN Same(s, ILUT_VERSION) ELSE Res(s, -999, <<ILUT_INVALID_ENUM>>)
UtAble(s, k, v) == IF k \in UtSwitches THEN Same(UtSet(s, k, v), 1) ELSE Res(s, 0, <<ILUT_INVALID_ENUM>>)
UtIsOn(s, k, v) == IF k \in UtSwitches THEN Same(s, IF s.ut[k] = v THEN 1 ELSE 0) ELSE Res(s, 1 - v, <<ILUT_INVALID_ENUM>>)
UtPush(s, m) == IF Len(s.utk) >= UtMax - 1 THEN Res(s, -999, <<ILUT_STACK_OVERFLOW>>)
                ELSE Res([s EXCEPT !.utk = Append(@, s.ut), !.ut = [k \in UtSettings |-> IF k \in UtKept(m) THEN @[k] ELSE UtDefault[k]]], -999, None)
UtPop(s) == IF s.utk = <<>> THEN Res(s, -999, <<ILUT_STACK_UNDERFLOW>>)
            ELSE Res([s EXCEPT !.ut = s.utk[Len(s.utk)], !.utk = SubSeq(@, 1, Len(@) - 1)], -999, None)
\* No graphics interface is compiled in.
UtRenderer(s, r) == Res(s, 0, IF r > ILUT_WIN32 \/ r < 0 THEN <<ILUT_INVALID_VALUE>> ELSE <<ILUT_NOT_SUPPORTED>>)

(* --------------------------------------------------------- life cycle ----- *)
\* Shutting down drops everything of the core layer; the settings of the other layers are theirs.
Shutdown(s) == IF ~s.up THEN Res(s, -999, Maybe)
               ELSE Res([s EXCEPT !.up = FALSE, !.imgs = <<>>, !.aud = <<>>, !.cur = 0, !.path = <<>>, !.stk = <<>>, !.ever = {}, !.hl = <<>>, !.hs = <<>>,
                                  !.fault = FALSE, !.want = NoPic, !.pend = <<>>], -999, None)
Startup(s) == IF s.up THEN Res(s, -999, None)
              ELSE Res([s EXCEPT !.up = TRUE, !.imgs = s.first, !.cur = 1, !.path = <<>>, !.st = StDefault, !.str = StrDefault, !.stk = <<>>,
                                 !.errs = <<>>, !.clr = <<>>, !.key = <<0, 0, 0, 0>>, !.ever = {1}, !.cmp = IL_USE_COMPRESSION], -999, None)
\* Memory in use when the library is down: none.
LiveRule(s) == IF s.up THEN -999 ELSE 0

ToolOps == {"iluParam", "iluGetInt", "iluLang", "iluErrStr", "iluVendor", "iluInit", "utInit", "utGetInt", "utGetBool", "utSetInt", "utEnable", "utDisable",
            "utIsEnabled", "utIsDisabled", "utPush", "utPop", "utRenderer", "utString", "Init", "Shutdown"}
DoTool(s, c) ==
    CASE c.op = "iluParam" -> IluParam(s, c.a[1], c.a[2])
      [] c.op = "iluGetInt" -> IluGet(s, c.a[1])
      [] c.op = "iluLang" -> Lang(s, c.a[1])
      [] c.op = "iluErrStr" -> ErrText(s, c.a[1], c.sa)
      [] c.op = "iluVendor" -> Named(s, c.a[1], c.sa, IluVersionName)
      [] c.op = "iluInit" -> Res([s EXCEPT !.ilu.lang = ILU_ENGLISH], -999, None)
      [] c.op = "utInit" -> Res([s EXCEPT !.ut = UtDefault], -999, None)
      [] c.op = "utGetInt" -> UtGetInt(s, c.a[1])
      [] c.op = "utGetBool" -> (IF c.a[1] \in UtSwitches THEN Same(s, s.ut[c.a[1]]) ELSE Res(s, -999, <<ILUT_INVALID_ENUM>>))
      [] c.op = "utSetInt" -> UtSetInt(s, c.a[1], c.a[2])
      [] c.op = "utEnable" -> UtAble(s, c.a[1], 1)
      [] c.op = "utDisable" -> UtAble(s, c.a[1], 0)
      [] c.op = "utIsEnabled" -> UtIsOn(s, c.a[1], 1)
      [] c.op = "utIsDisabled" -> UtIsOn(s, c.a[1], 0)
      [] c.op = "utPush" -> UtPush(s, c.a[1])
      [] c.op = "utPop" -> UtPop(s)
      [] c.op = "utRenderer" -> UtRenderer(s, c.a[1])
      [] c.op = "utString" -> Named(s, c.a[1], c.sa, UtVersionName)
      [] c.op = "Init" -> Startup(s)
      [] c.op = "Shutdown" -> Shutdown(s)
===============================================================================
