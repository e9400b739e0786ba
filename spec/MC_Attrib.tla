------------------------------- MODULE MC_Attrib ------------------------------
(* The attribute stack: nested pushes with group masks, pops and changes.     *)
EXTENDS MCBase
CONSTANTS Depth
Masks == {0, IL_ORIGIN_BIT, IL_FORMAT_SPECIFIC_BIT, IL_TYPE_BIT + IL_PAL_BIT, -1}
Cmds == {C("Push", <<m>>) : m \in Masks}
        \cup {C("Pop", <<>>), C("SetInt", <<IL_JPG_QUALITY, 50>>), C("Enable", <<IL_CONV_PAL>>),
              C("OriginFunc", <<IL_ORIGIN_UPPER_LEFT>>), C("TypeFunc", <<IL_FLOAT>>), C("Disable", <<IL_BLIT_BLEND>>), C("CompressFunc", <<IL_COMPRESS_RLE>>),
              CS("SetString", <<IL_TGA_ID_STRING>>, "s:abc")}
Ok(q) == TRUE
Next == \E c \in Cmds : Take(c, Ok, Depth)
Init == MCInit
\* A pop gives back what was there at the matching push.
Restores == [][ lc'.op = "Pop" /\ s.stk # <<>> => /\ s'.st = s.stk[Len(s.stk)].st
                                                  /\ s'.str = s.stk[Len(s.stk)].str
                                                  /\ s'.stk = SubSeq(s.stk, 1, Len(s.stk) - 1) ]_vars
Keeps == [][ lc'.op = "Push" => /\ Len(s'.stk) = Len(s.stk) + 1
                                /\ s'.stk[Len(s'.stk)] = [st |-> s.st, str |-> s.str]
                                /\ \A x \in Kept(lc'.a[1]) : s'.st[x] = s.st[x] ]_vars
ImagesAlone == [][ s'.imgs = s.imgs /\ s'.cur = s.cur ]_vars
===============================================================================
