------------------------------- MODULE MC_Pixel -------------------------------
(* Per-pixel edits of small images, one after the other, also in a region.    *)
EXTENDS MCBase
CONSTANTS Depth
UBY == IL_UNSIGNED_BYTE
Cmds == {CD("TexImage", <<3, 3, 1, 3, IL_BGR, UBY>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 255, 0, 255, 0, 255, 0, 19, 20, 21, 22, 23, 24, 25, 26, 27>>),
         CD("TexImage", <<2, 1, 2, 4, IL_RGBA, UBY>>, <<1, 2, 3, 250, 251, 252, 0, 128, 255, 255, 255, 0, 64, 200, 127, 1>>),
         CD("TexImage", <<2, 2, 1, 2, IL_LUMINANCE_ALPHA, IL_UNSIGNED_SHORT>>, <<1, 2, 3, 4, 5, 6, 255, 128, 9, 8, 7, 6, 0, 0, 255, 255>>),
         CD("TexImage", <<3, 1, 1, 1, IL_COLOUR_INDEX, UBY>>, <<0, 1, 1>>), CD("RegPal", <<IL_PAL_BGRA32>>, <<10, 20, 30, 40, 250, 60, 70, 200>>),
         C("ClearColour", <<0, 256, 0, 256>>), C("iluRegionI", <<0, 0, 2, 0, 2, 2, 0, 2>>), C("iluRegionI", <<>>), C("iluRegionI", <<0, 0, 1, 1>>),
         C("iluNegative", <<>>), C("iluInvertAlpha", <<>>), C("iluSwap", <<>>), C("iluReplace", <<9, 99, 199, 30>>), C("iluReplace", <<9, 99, 199, 0>>),
         C("iluScaleAlpha", <<384>>), C("iluScaleColours", <<128, 512, 256>>), C("iluGamma", <<512>>), C("iluGamma", <<0>>), C("iluContrast", <<300>>),
         C("iluColours", <<>>), CN("Bind", <<2>>), CN("Bind", <<1>>), CN("iluCompare", <<1>>)}
Ok(q) == TRUE
Next == \E c \in Cmds : Take(c, Ok, Depth)
Init == MCInit
\* Done twice, nothing has happened.
Twice == [][ lc'.op \in {"iluNegative", "iluInvertAlpha", "iluSwap"} /\ Do(s, lc').r = 1 /\ Known(Cur(s).dat) /\ s.reg.p = <<>> => Do(s', lc').s.imgs = s.imgs ]_vars
\* The frame stays; only the colour edits touch colours, only the alpha edits alpha; inside of the region only.
Frame(m) == <<m.w, m.h, m.d, m.t, m.o, Len(m.pal), ChainLen(m, "M"), ChainLen(m, "N")>>
Edits == {"iluNegative", "iluInvertAlpha", "iluSwap", "iluReplace", "iluScaleAlpha", "iluScaleColours", "iluGamma", "iluContrast"}
Stays == [][ lc'.op \in Edits => Frame(Cur(s')) = Frame(Cur(s)) /\ (lc'.op # "iluSwap" => Cur(s').f = Cur(s).f) ]_vars
Alphas(m) == IF m.f \in {IL_RGBA, IL_BGRA} /\ Known(m.dat) THEN [p \in 1..Count(m) |-> m.dat[4 * p]] ELSE <<>>
Colour(m) == IF m.f \in {IL_RGBA, IL_BGRA} /\ Known(m.dat) THEN [i \in 1..Len(m.dat) |-> IF i % 4 = 0 THEN 0 ELSE m.dat[i]] ELSE <<>>
Apart == [][ /\ lc'.op \in {"iluSwap", "iluReplace", "iluScaleColours"} => Alphas(Cur(s')) = Alphas(Cur(s))
             /\ lc'.op \in {"iluInvertAlpha", "iluScaleAlpha"} => Colour(Cur(s')) = Colour(Cur(s)) ]_vars
===============================================================================
