------------------------------ MODULE MC_Filter ------------------------------
(* Filters on small images, one after the other, also in a region.            *)
EXTENDS MCBase
CONSTANTS Depth
UBY == IL_UNSIGNED_BYTE
Cmds == {CD("TexImage", <<3, 3, 1, 3, IL_BGR, UBY>>, <<1, 200, 3, 4, 5, 6, 7, 8, 90, 10, 11, 12, 255, 0, 255, 0, 255, 0, 19, 20, 21, 220, 23, 24, 25, 26, 27>>),
         CD("TexImage", <<2, 2, 2, 4, IL_RGBA, UBY>>, <<1, 2, 3, 250, 251, 252, 0, 128, 255, 255, 255, 0, 64, 200, 127, 1, 9, 9, 9, 9, 0, 0, 0, 0, 30, 60, 90, 120, 7, 7, 7, 7>>),
         CD("TexImage", <<4, 3, 1, 1, IL_LUMINANCE, UBY>>, <<1, 255, 3, 0, 60, 70, 80, 0, 200, 10, 20, 30>>),
         CD("TexImage", <<1, 3, 1, 1, IL_LUMINANCE, IL_UNSIGNED_SHORT>>, <<1, 2, 3, 200, 5, 6>>),
         CD("TexImage", <<3, 1, 1, 1, IL_COLOUR_INDEX, UBY>>, <<0, 1, 1>>), CD("RegPal", <<IL_PAL_BGRA32>>, <<10, 20, 30, 40, 250, 60, 70, 200>>),
         C("iluRegionI", <<0, 0, 2, 0, 2, 2, 0, 2>>), C("iluRegionI", <<>>), C("iluMirror", <<>>),
         C("iluPixelize", <<2>>), C("iluBlurAvg", <<1>>), C("iluBlurGauss", <<2>>), C("iluEmboss", <<>>), C("iluEdgeE", <<>>), C("iluEdgeP", <<>>), C("iluEdgeS", <<>>),
         C("iluSharpen", <<512, 2>>), C("iluAlienify", <<>>), C("iluSepia", <<>>), C("iluEqualize", <<>>), C("iluNoisify", <<64>>), C("iluWave", <<20>>),
         C("iluConv", <<0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0>>), C("iluConv", <<0, 2, 0, 1, -3, 0, 0, 0, 1, 2, -9>>), C("iluConv", <<1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0>>)}
Ok(q) == Cur(q).f # -9    \* (what pixelizing makes of an image with a quantised palette is not settled)
Next == \E c \in Cmds : Take(c, Ok, Depth)
Init == MCInit
\* The frame stays (pixelizing turns indices into colours).
Frame(m) == <<m.w, m.h, m.d, m.o, ChainLen(m, "M"), ChainLen(m, "N")>>
Stays == [][ lc'.op \in FilterOps => Frame(Cur(s')) = Frame(Cur(s)) /\ (lc'.op # "iluPixelize" \/ Cur(s).f # IL_COLOUR_INDEX => Cur(s').f = Cur(s).f /\ Cur(s').t = Cur(s).t) ]_vars
\* What is outside of the region stays.
Local == {"iluPixelize", "iluBlurAvg", "iluBlurGauss", "iluEmboss", "iluEdgeE", "iluEdgeP", "iluEdgeS", "iluSharpen", "iluNoisify", "iluConv"}
Outside == [][ lc'.op \in Local /\ Cur(s).t = UBY /\ Cur(s).f # IL_COLOUR_INDEX /\ Known(Cur(s).dat) /\ Known(Cur(s').dat) =>
                 LET R == Inside(s, Cur(s)) ch == Bpp(Cur(s).f) IN
                 \A i \in 1..Len(Cur(s).dat) : R[(i - 1) \div ch] = 0 => Cur(s').dat[i] = Cur(s).dat[i] ]_vars
\* Symmetric filters know no left and right, no up and down.
Even == {"iluBlurAvg", "iluBlurGauss", "iluEdgeP", "iluEdgeS", "iluSepia", "iluAlienify", "iluEqualize"}
Mirror == C("iluMirror", <<>>)  Flip == C("iluFlip", <<>>)
Symmetric == [][ lc'.op \in Even /\ s.reg.p = <<>> /\ Cur(s).f # IL_COLOUR_INDEX => /\ Do(s', Mirror).s.imgs = Do(Do(s, Mirror).s, lc').s.imgs
                                                      /\ Do(s', Flip).s.imgs = Do(Do(s, Flip).s, lc').s.imgs ]_vars
\* Weight one at the centre, no offset: nothing changes.
Idle == [][ lc'.op = "iluConv" /\ lc'.a = <<0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0>> /\ Cur(s).t = UBY /\ Cur(s).f # IL_COLOUR_INDEX /\ Known(Cur(s).dat) /\ (\A i \in 1..Len(Cur(s).dat) : Exact(Cur(s).dat[i])) /\ s.reg.p = <<>> => s'.imgs = s.imgs ]_vars
===============================================================================
