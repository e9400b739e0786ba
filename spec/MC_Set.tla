-------------------------------- MODULE MC_Set --------------------------------
(* Settings one by one and in pairs: every candidate value of every setting.  *)
EXTENDS MCBase
CONSTANTS Depth
Values == {-2, -1, 0, 1, 2, 3, 15, 30, 31, 50, 99, 100, 255, 256, 257,
           IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA, IL_COLOUR_INDEX,
           IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT, IL_WU_QUANT, IL_NEU_QUANT, IL_BYTE, IL_DOUBLE, IL_DOUBLE + 1, IL_HALF,
           IL_JFIF, IL_EXIF, IL_DXT1, IL_DXT5, IL_DXT_NO_COMP, IL_3DC, IL_ATI1N, IL_DXT1A, IL_COMPRESS_NONE, IL_COMPRESS_RLE, IL_COMPRESS_LZO, IL_COMPRESS_ZLIB}
First == {C("SetInt", <<k_, v>>) : k_ \in Settable \cup {IL_COMPRESS_MODE, 0, IL_IMAGE_WIDTH, IL_FILE_MODE, IL_INTERLACE_MODE}, v \in Values}
         \cup {C(op, <<x>>) : op \in {"Enable", "Disable"}, x \in DOMAIN SwitchOf \cup {0, IL_FILE_MODE, IL_ORIGIN_MODE}}
         \cup {C(op, <<v>>) : op \in {"OriginFunc", "FormatFunc", "TypeFunc", "CompressFunc"}, v \in Values}
Second == {C("SetInt", <<IL_JPG_QUALITY, 7>>), C("SetInt", <<IL_ORIGIN_MODE, IL_ORIGIN_UPPER_LEFT>>), C("SetInt", <<IL_PNG_ALPHA_INDEX, 4>>),
           C("SetInt", <<IL_VTF_COMP, IL_DXT3>>), C("SetInt", <<IL_TGA_RLE, 1>>), C("SetInt", <<IL_TGA_RLE, 5>>), C("SetInt", <<IL_FORMAT_MODE, IL_RGB>>),
           C("Enable", <<IL_CONV_PAL>>), C("Disable", <<IL_BLIT_BLEND>>), C("TypeFunc", <<IL_SHORT>>), C("CompressFunc", <<IL_COMPRESS_RLE>>)}
Ok(q) == TRUE
Next == \E c \in (IF n = 0 THEN First ELSE Second) : Take(c, Ok, Depth)
Init == MCInit
\* At most one setting changes, to the requested value, which is one of its documented values.
OneAtATime == [][ \E x \in Settings : /\ \A y \in Settings \ {x} : s'.st[y] = s.st[y]
                                      /\ s'.st[x] = s.st[x] \/ Valid(x, s'.st[x])
                                      /\ s'.st[x] # s.st[x] /\ lc'.op = "SetInt" => lc'.a = <<x, s'.st[x]>> ]_vars
ValidAll == \A x \in Settings : Valid(x, s.st[x])
===============================================================================
