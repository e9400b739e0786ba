-------------------------------- MODULE MC_Err --------------------------------
(* The record of pending errors, near empty and near full.                    *)
EXTENDS MCBase
CONSTANTS Depth, Full
Cmds == {C("SetError", <<IL_INVALID_PARAM>>), C("SetError", <<IL_STACK_OVERFLOW>>), C("GetError", <<>>), C("Drain", <<>>), C("Pop", <<>>),
         C("Enable", <<0>>), C("Enable", <<IL_CONV_PAL>>), C("GetInt", <<IL_IMAGE_WIDTH>>), C("OriginFunc", <<0>>)}
RECURSIVE Txt(_)
Txt(i) == IF i = 0 THEN "" ELSE Txt(i - 1) \o ";SetError " \o ToString(1281 + (i % 10))
RECURSIVE Errs(_)
Errs(i) == IF i = 0 THEN <<>> ELSE <<1281 + (i % 10)>> \o Errs(i - 1)
Step(c) == LET R == Do(s, c) IN
    /\ n < Depth
    /\ s' = TLCEval([R.s EXCEPT !.errs = AddErr(@, R.er), !.aud = <<>>, !.lives = <<>>])
    /\ k' = k /\ n' = n + 1 /\ lc' = c
    /\ hist' = hist \o ";" \o c.txt
    /\ PrintT("SCRIPT" \o hist')
Next == \E c \in Cmds : Step(c)
Init == \E f \in {0, Full} : s = [Strip(S0) EXCEPT !.errs = Errs(f)] /\ k = 0 /\ n = 0 /\ lc = C("Init", <<>>) /\ hist = Txt(f)
Bounded == Len(s.errs) <= ErrMax
Isolate == [][ s'.imgs = s.imgs ]_vars
\* newest first; a retrieval takes exactly one; new ones go in front and only the oldest are lost
Order == [][ \/ s'.errs = s.errs
             \/ lc'.op = "GetError" /\ s.errs # <<>> /\ s'.errs = Tail(s.errs)
             \/ lc'.op = "Drain" /\ s'.errs = <<>>
             \/ lc'.op \notin {"GetError", "Drain", "GetInt"} /\ s'.errs # <<>> /\ Tail(s'.errs) = SubSeq(s.errs, 1, Len(s'.errs) - 1)
                /\ (Len(s'.errs) = Len(s.errs) + 1 \/ (Len(s'.errs) = ErrMax /\ Len(s.errs) = ErrMax)) ]_vars
===============================================================================
