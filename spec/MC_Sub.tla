-------------------------------- MODULE MC_Sub --------------------------------
(* Sub-image lists: creating, selecting, rebinding, deleting.                 *)
EXTENDS MCBase
CONSTANTS Depth, MaxNodes
Cmds == {C("Sub", <<t, x>>) : t \in {IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER}, x \in {1, 2}}
        \cup {C("RegF", <<2>>), C("RegN", <<1>>), C("RegM", <<1>>), C("Sub", <<9, 1>>)}
        \cup {C(op, <<x>>) : op \in {"ActN", "ActM", "ActL", "ActF"}, x \in 0..2}
        \cup {CN("Bind", <<1>>), CN("Bind", <<0>>), CN("Bind", <<2>>), CN("Del", <<2>>), CN("CopyImage", <<1>>)}
        \cup {CD("TexImage", <<1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE>>, <<x>>) : x \in {34}}
        \cup (IF s.cur = 0 THEN {} ELSE {CD("SetData", <<>>, <<51>>)})      \* (the default image is larger than that)
RECURSIVE Nodes(_)
Nodes(m) == 1 + (IF m.N = <<>> THEN 0 ELSE Nodes(m.N[1])) + (IF m.M = <<>> THEN 0 ELSE Nodes(m.M[1]))
              + (IF m.L = <<>> THEN 0 ELSE Nodes(m.L[1])) + (IF m.F = <<>> THEN 0 ELSE Nodes(m.F[1]))
Ok(q) == \A m \in Names(q) : Nodes(q.imgs[m]) <= MaxNodes
Next == \E c \in Cmds : Take(c, Ok, Depth)
Init == MCInit
===============================================================================
