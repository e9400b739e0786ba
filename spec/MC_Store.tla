------------------------------- MODULE MC_Store -------------------------------
EXTENDS MCBase
CONSTANTS Depth, MaxNames, MaxGen
NamePool == Names(s) \cup {2}
Cmds == {C("IsImage", <<2>>), CGen1, CGen(2), CClone}
        \cup {CN("Bind", <<m>>) : m \in NamePool}
        \cup {CN("Del", <<m>>) : m \in NamePool}
        \cup {CN("Del", <<m, 1>>) : m \in NamePool}
        \cup {CN("IsImage", <<m>>) : m \in {0, s.cur}}
        \cup {CN("CopyImage", <<m>>) : m \in NamePool}
        \cup {CD("TexImage", <<1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE>>, <<x>>) : x \in {17, 34}}
Ok(q) == Cardinality(Names(q)) <= MaxNames
Next == \E c \in Cmds : (k + Handed(c) <= MaxGen) /\ Take(c, Ok, Depth)
Init == MCInit
===============================================================================
