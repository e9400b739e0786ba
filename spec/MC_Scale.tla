------------------------------- MODULE MC_Scale -------------------------------
(* Scaling and mipmaps of small images.                                       *)
EXTENDS MCBase
CONSTANTS Depth
UBY == IL_UNSIGNED_BYTE
Cmds == {CD("TexImage", <<3, 2, 1, 3, IL_RGB, UBY>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18>>),
         CD("TexImage", <<2, 1, 3, 1, IL_LUMINANCE, IL_UNSIGNED_SHORT>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>),
         CD("TexImage", <<4, 3, 1, 1, IL_COLOUR_INDEX, UBY>>, <<0, 1, 2, 2, 1, 0, 2, 1, 0, 1, 1, 0>>), CD("RegPal", <<IL_PAL_RGB24>>, <<10, 20, 30, 40, 50, 60, 70, 80, 90>>),
         CD("TexImage", <<2, 3, 1, 4, IL_BGRA, UBY>>, <<9, 8, 7, 6, 9, 8, 7, 6, 9, 8, 7, 6, 9, 8, 7, 6, 9, 8, 7, 6, 9, 8, 7, 6>>),
         C("iluParam", <<ILU_FILTER, ILU_BILINEAR>>), C("iluParam", <<ILU_FILTER, ILU_LINEAR>>), C("iluParam", <<ILU_FILTER, ILU_SCALE_MITCHELL>>),
         C("iluScale", <<1, 1, 1>>), C("iluScale", <<5, 4, 1>>), C("iluScale", <<3, 2, 1>>), C("iluScale", <<2, 2, 2>>), C("iluScale", <<0, 3, 1>>),
         C("iluEnlargeImage", <<512, 256, 256>>), C("iluEnlargeImage", <<0, 256, 256>>), C("iluMips", <<>>), C("ActM", <<1>>), C("ActM", <<2>>), C("Sub", <<IL_SUB_MIPMAP, 2>>),
         C("Sub", <<IL_SUB_NEXT, 1>>), C("ActN", <<1>>), CN("Bind", <<1>>)}
Ok(q) == Count(Cur(q)) <= 80 /\ Cur(q).M # WildSub
Next == \E c \in Cmds : Take(c, Ok, Depth)
Init == MCInit
Same1(m) == <<m.f, m.t, m.o>>
Resized == [][ lc'.op = "iluScale" /\ Do(s, lc').r = 1 /\ lc'.a[1] > 0 => LET m == Cur(s') IN <<m.w, m.h, m.d>> = lc'.a /\ Same1(m) = Same1(Cur(s)) ]_vars
Unchanged == [][ lc'.op = "iluScale" /\ lc'.a = <<Cur(s).w, Cur(s).h, Cur(s).d>> => s' = s ]_vars
RECURSIVE Halving(_)
Halving(m) == IF m.M = <<>> THEN m.w = 1 /\ m.h = 1 /\ m.d = 1
              ELSE LET l == m.M[1] IN <<l.w, l.h, l.d>> = <<Max2(1, m.w \div 2), Max2(1, m.h \div 2), Max2(1, m.d \div 2)>> /\ Same1(l) = Same1(m) /\ Halving(l)
Chain == [][ lc'.op = "iluMips" /\ Do(s, lc').r = 1 => Halving(Cur(s')) /\ [Cur(s') EXCEPT !.M = <<>>] = [Cur(s) EXCEPT !.M = <<>>] ]_vars
\* nearest neighbours: no new pixel values
Values(m) == LET u == Bpp(m.f) * Bpc(m.t) IN {SubSeq(m.dat, p * u + 1, p * u + u) : p \in 0..(Count(m) - 1)}
Near == [][ lc'.op = "iluScale" /\ s.ilu.flt = ILU_NEAREST /\ Known(Cur(s).dat) /\ Known(Cur(s').dat) =>
            \A v \in Values(Cur(s')) : v \in Values(Cur(s)) \/ \E i \in 1..Len(v) : v[i] = -9 ]_vars
OneColour == [][ lc'.op = "iluScale" /\ Uniform(Cur(s)) /\ Known(Cur(s').dat) /\ ~IsShow(Cur(s').dat) => Values(Cur(s')) = Values(Cur(s)) ]_vars
===============================================================================
