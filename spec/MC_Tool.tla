-------------------------------- MODULE MC_Tool -------------------------------
(* Settings of the utility and toolkit layers and the life cycle: all short   *)
(* histories of changes, pushes, pops, shutting down and starting again.      *)
EXTENDS MCBase
CONSTANTS Depth
Cmds == {C("utSetInt", <<k_, v>>) : k_ \in {ILUT_MAXTEX_WIDTH, ILUT_S3TC_FORMAT, ILUT_D3D_POOL}, v \in {-1, 0, 2, IL_DXT3}}
        \cup {C("utEnable", <<x>>) : x \in {ILUT_PALETTE_MODE, ILUT_GL_GEN_S3TC, 0}}
        \cup {C("utPush", <<m>>) : m \in {0, ILUT_OPENGL_BIT, ILUT_D3D_BIT, ILUT_ALL_ATTRIB_BITS}}
        \cup {C("utPop", <<>>), C("utInit", <<>>), C("Init", <<>>), C("Shutdown", <<>>)}
        \cup {C("iluParam", <<k_, v>>) : k_ \in {ILU_FILTER, ILU_PLACEMENT}, v \in {ILU_SCALE_BELL, ILU_UPPER_RIGHT, 0}}
        \cup {C("iluLang", <<ILU_GERMAN>>), C("iluLang", <<0>>), C("iluInit", <<>>)}
UpCmds == {C("SetInt", <<IL_JPG_QUALITY, 50>>), C("Push", <<-1>>), CGen1, CN("Bind", <<2>>), C("Sub", <<IL_SUB_NEXT, 1>>)}
Ok(q) == Cardinality(Names(q)) <= 4 /\ Len(q.utk) <= 2
Next == \E c \in Cmds \cup (IF s.up THEN UpCmds ELSE {}) : Take(c, Ok, Depth)
Init == MCInit
TypeOKUp == s.up => TypeOK
\* Everything of the core layer is as at first use after starting, and nothing is left after shutting down.
Fresh0 == [][ /\ (lc'.op = "Init" /\ ~s.up => Strip([s' EXCEPT !.ilu = IluDefault, !.ut = UtDefault, !.utk = <<>>]) = Strip(S0))
              /\ (lc'.op = "Init" /\ s.up => s' = s)
              /\ (lc'.op = "Shutdown" => Names(s') = {} /\ s'.stk = <<>>) ]_vars
UtRestores == [][ lc'.op = "utPop" /\ s.utk # <<>> => s'.ut = s.utk[Len(s.utk)] ]_vars
UtValid1 == \A x \in UtSettable : s.ut[x] = UtDefault[x] \/ UtValid(x, s.ut[x])
\* The layers do not touch each other's settings.
Apart == [][ /\ (lc'.op \in ToolOps \ {"Init", "Shutdown"} => s'.imgs = s.imgs /\ s'.st = s.st /\ s'.stk = s.stk)
             /\ (s'.ut # s.ut \/ s'.utk # s.utk => lc'.op \in {"utSetInt", "utEnable", "utDisable", "utPush", "utPop", "utInit"}) ]_vars
===============================================================================
