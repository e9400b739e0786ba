------------------------------- MODULE MC_Place -------------------------------
(* Geometric edits of small images, one after the other.                      *)
EXTENDS MCBase
CONSTANTS Depth
UBY == IL_UNSIGNED_BYTE
Cmds == {CD("TexImage", <<3, 2, 1, 3, IL_RGB, UBY>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18>>),
         CD("TexImage", <<2, 1, 3, 1, IL_LUMINANCE, IL_UNSIGNED_SHORT>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>),
         CD("TexImage", <<1, 3, 2, 1, IL_COLOUR_INDEX, UBY>>, <<0, 1, 2, 2, 1, 0>>), CD("RegPal", <<IL_PAL_BGRA32>>, <<10, 20, 30, 40, 50, 60, 70, 80, 250, 250, 250, 0>>),
         C("ClearColour", <<256, 256, 0, 256>>), C("RegOrigin", <<IL_ORIGIN_UPPER_LEFT>>), C("iluParam", <<ILU_PLACEMENT, ILU_LOWER_RIGHT>>), C("iluParam", <<ILU_PLACEMENT, ILU_UPPER_LEFT>>),
         C("iluFlip", <<>>), C("iluMirror", <<>>), C("iluRotate", <<90>>), C("iluRotate", <<180>>), C("iluRotate", <<270>>),
         C("iluCrop", <<1, 0, 0, 1, 2, 1>>), C("iluCrop", <<0, 1, 1, 2, 1, 1>>), C("iluCrop", <<0, 0, 0, 9, 1, 1>>),
         C("iluEnlargeCanvas", <<3, 3, 3>>), C("iluEnlargeCanvas", <<4, 3, 2>>), C("iluEnlargeCanvas", <<3, 2, 1>>),
         C("Sub", <<IL_SUB_MIPMAP, 1>>), C("ActM", <<1>>), CN("Bind", <<2>>), CN("Bind", <<1>>)}
Ok(q) == Count(Cur(q)) <= 36
Next == \E c \in Cmds : Take(c, Ok, Depth)
Init == MCInit
Undo(c) == C(c.op, IF c.op = "iluRotate" THEN <<360 - c.a[1]>> ELSE <<>>)
Moves == {"iluFlip", "iluMirror", "iluRotate"}
Frame(m) == <<m.w, m.h, m.d, m.f, m.t, m.o, m.pt, m.pal, m.dat>>
\* Every move has an inverse; moving never loses or changes a pixel's value; a refused edit changes nothing.
Inverse == [][ lc'.op \in Moves => Frame(Cur(Do(s', Undo(lc')).s)) = Frame(Cur(s)) ]_vars
PixelBag(m) == LET u == Bpp(m.f) * Bpc(m.t) IN [v \in {SubSeq(m.dat, p * u + 1, p * u + u) : p \in 0..(Count(m) - 1)} |->
                Cardinality({p \in 0..(Count(m) - 1) : SubSeq(m.dat, p * u + 1, p * u + u) = v})]
Moved == [][ lc'.op \in Moves /\ Known(Cur(s).dat) => PixelBag(Cur(s')) = PixelBag(Cur(s)) ]_vars
\* What is cropped out of the canvas where the image was put is the image.
CropBack == [][ LET m == Cur(s) p == s.ilu.plc low == m.o = IL_ORIGIN_LOWER_LEFT IN
                (lc'.op = "iluEnlargeCanvas" /\ Known(m.dat) /\ Known(Cur(s').dat) /\ p # ILU_CENTER /\ Do(s, lc').r = 1) =>
                LET x == IF p \in {ILU_LOWER_LEFT, ILU_UPPER_LEFT} THEN 0 ELSE lc'.a[1] - m.w
                    y == IF (p \in {ILU_LOWER_LEFT, ILU_LOWER_RIGHT}) = low THEN 0 ELSE lc'.a[2] - m.h
                IN Frame(Cur(Do(s', C("iluCrop", <<x, y, 0, m.w, m.h, m.d>>)).s)) = Frame(m) ]_vars
Refused == [][ lc'.op \in {"iluCrop", "iluEnlargeCanvas"} /\ Do(s, lc').r = 0 => s'.imgs = s.imgs ]_vars
===============================================================================
