------------------------------- MODULE MC_Edit --------------------------------
(* Definitions, conversions, rectangles and blits on small images.            *)
EXTENDS MCBase
CONSTANTS Depth
UBY == IL_UNSIGNED_BYTE
Cmds == {CD("TexImage", <<2, 1, 1, 3, IL_RGB, UBY>>, <<1, 2, 3, 250, 251, 252>>),
         CD("TexImage", <<1, 2, 1, 4, IL_BGRA, UBY>>, <<9, 8, 7, 128, 6, 5, 4, 255>>),
         CD("TexImage", <<2, 2, 1, 1, IL_LUMINANCE, IL_UNSIGNED_SHORT>>, <<1, 2, 3, 4, 5, 6, 255, 128>>),
         CD("TexImage", <<3, 1, 1, 1, IL_COLOUR_INDEX, UBY>>, <<0, 1, 1>>), CD("RegPal", <<IL_PAL_BGR24>>, <<10, 20, 30, 40, 50, 60>>),
         C("TexImage", <<1, 1, 1, 3, IL_RGB, 1>>),
         C("RegOrigin", <<IL_ORIGIN_UPPER_LEFT>>), C("ConvertPal", <<IL_PAL_RGBA32>>),
         C("ClearColour", <<256, 0, 128, 64>>), C("Clear", <<>>), C("Disable", <<IL_BLIT_BLEND>>), C("Enable", <<IL_ORIGIN_SET>>),
         C("Sub", <<IL_SUB_NEXT, 1>>), C("ActN", <<1>>), CN("Bind", <<1>>), CN("Bind", <<2>>), CN("Del", <<2>>), CN("CopyImage", <<1>>),
         CN("Blit", <<2, 0, 0, 0, 0, 0, 0, 2, 2, 1>>), CN("Blit", <<1, 1, -1, 0, 0, 0, 0, 2, 2, 1>>), CN("Overlay", <<1, 0, 1, 0>>),
         CD("SetPixels", <<1, 0, 0, 2, 1, 1, IL_RGBA, UBY>>, <<1, 2, 3, 4, 5, 6, 7, 8>>), CD("SetPixels", <<-1, 1, 0, 2, 1, 1, IL_LUMINANCE, UBY>>, <<77, 88>>),
         C("SetAlpha", <<128>>)}
        \cup {C("Convert", <<f, t>>) : f \in {IL_RGB, IL_LUMINANCE_ALPHA, IL_BGRA, IL_COLOUR_INDEX}, t \in {UBY, IL_SHORT}}
Ok(q) == TRUE
Next == \E c \in Cmds : ~(c.op \in {"CopyImage", "Blit", "Overlay"} /\ s.cur = 0) /\ Take(c, Ok, Depth)
Init == MCInit
RefusedKeeps == [][ lc'.op = "TexImage" /\ lc'.a[6] = 1 => s' = s ]_vars
\* A conversion keeps the geometry and the sub-image lists, and clearing or writing pixels the format.
\* (With IL_ORIGIN_SET, writing pixels stores the image in the origin mode.)
Shape(m) == <<m.w, m.h, m.d, IF s.st[IL_ORIGIN_SET] = 1 THEN 0 ELSE m.o, ChainLen(m, "N"), ChainLen(m, "M")>>
Keeps == [][ /\ lc'.op \in {"Convert", "SetAlpha", "Clear", "SetPixels", "Blit", "Overlay", "ConvertPal"} => s'.cur = s.cur /\ Shape(Cur(s')) = Shape(Cur(s))
             /\ lc'.op \in {"Clear", "SetPixels", "Blit", "Overlay"} => Cur(s').f = Cur(s).f /\ Cur(s').t = Cur(s).t ]_vars
===============================================================================
