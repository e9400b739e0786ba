-------------------------------- MODULE MCBase --------------------------------
(* Exhaustive exploration of ILSys within small bounds: frame shared by the   *)
(* models MC_*.  Every transition is printed as a script for the driver, so   *)
(* that each of them is also taken by the library (see ILTrace).              *)
EXTENDS ILSys
VARIABLES s,      \* state of ILSys
          k,      \* names handed out so far
          n,      \* depth
          lc,     \* last command
          hist    \* script that leads here
vars == <<s, k, n, lc, hist>>

\* A command as the driver writes it.  Names handed out by the library are 101, 102, ... here, $1, $2, ... there.
NameTok(x) == IF x > 100 THEN "$" \o ToString(x - 100) ELSE ToString(x)
RECURSIVE Toks(_)
Toks(q) == IF q = <<>> THEN "" ELSE " " \o ToString(Head(q)) \o Toks(Tail(q))
RECURSIVE NameToks(_)
NameToks(q) == IF q = <<>> THEN "" ELSE " " \o NameTok(Head(q)) \o NameToks(Tail(q))
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_)
Hex(q) == IF q = <<>> THEN "" ELSE HexDigit[Head(q) \div 16 + 1] \o HexDigit[(Head(q) % 16) + 1] \o Hex(Tail(q))
\* Commands: c(op, arguments), cn (arguments are names), cd (with data), cs (with a string).
Cmd(op, a, txt) == [op |-> op, a |-> a, d |-> <<>>, nod |-> 1, sa |-> "", r |-> -999, o |-> <<>>, txt |-> txt]
C(op, a) == Cmd(op, a, op \o Toks(a))
CN(op, a) == Cmd(op, a, op \o NameToks(a))
CD(op, a, d) == [Cmd(op, a, op \o Toks(a) \o " x:" \o Hex(d)) EXCEPT !.d = d, !.nod = 0]
CS(op, a, str) == [Cmd(op, a, op \o Toks(a) \o " " \o str) EXCEPT !.sa = str]
\* Commands that hand out m names.
Fresh(i) == 100 + k + i
CGen(m) == [C("Gen", <<m>>) EXCEPT !.o = [i \in 1..m |-> Fresh(i)]]
CGen1 == [C("Gen1", <<>>) EXCEPT !.r = Fresh(1)]
CClone == [C("Clone", <<>>) EXCEPT !.r = Fresh(1)]
Handed(c) == IF c.op = "Gen" THEN Len(c.o) ELSE IF c.op \in {"Gen1", "Clone", "iluGen"} THEN 1 ELSE 0

Strip(q) == [q EXCEPT !.errs = <<>>, !.aud = <<>>, !.lives = <<>>, !.dx = <<>>]
MCInit == s = Strip(S0) /\ k = 0 /\ n = 0 /\ lc = C("Init", <<>>) /\ hist = ""
\* keep: what is carried on from the next state (bounds)
Take(c, ok(_), depth) ==
    LET R == Do(s, c) IN
    /\ n < depth
    /\ R.ok
    /\ s' = TLCEval(Strip(R.s))
    /\ ok(s')
    /\ k' = k + Handed(c)
    /\ n' = n + 1
    /\ lc' = c
    /\ hist' = hist \o ";" \o c.txt
    /\ PrintT("SCRIPT" \o hist')
Hide == <<s, k>>

(* ------------------------------------------------- properties of the model *)

PathOk(q) == LET RECURSIVE w(_, _)
                 w(m, p) == p = <<>> \/ (m[p[1]] # <<>> /\ w(m[p[1]][1], Tail(p)))
             IN q.cur \in Names(q) /\ w(q.imgs[q.cur], q.path)

RECURSIVE NodeOk(_)
NodeOk(m) == /\ m.w >= 1 /\ m.h >= 1 /\ m.d >= 1
             /\ SizeOk(m)
             /\ (m.pt = IL_PAL_NONE <=> m.pal = <<>>)
             /\ \A x \in Dirs : m[x] = <<>> \/ NodeOk(m[x][1])
\* the default image exists, the selection refers to an element that exists, images are well formed
TypeOK == /\ 0 \in Names(s)
          /\ PathOk(s)
          /\ \A m \in Names(s) : NodeOk(s.imgs[m])
Creates == {"Gen", "Gen1", "Clone", "Bind", "CopyImage", "Blit", "Overlay", "iluGen"}
\* names appear only by generating, binding or referring to them, vanish only by being deleted
NamesRule == [][ /\ (Names(s') \ Names(s) # {} => lc'.op \in Creates)
                 /\ (Names(s) \ Names(s') # {} => lc'.op \in {"Del", "Del1", "iluDel"} /\ \A m \in Names(s) \ Names(s') : \E i \in 1..Len(lc'.a) : lc'.a[i] = m)
                 /\ (s.cur # s'.cur => \/ lc'.op = "Bind" /\ s'.cur = lc'.a[1]
                                       \/ lc'.op \in {"Del", "Del1", "iluDel"} /\ s.cur \notin Names(s') /\ s'.cur = 0) ]_vars
\* only the current image changes
Isolated == [][ \A m \in Names(s) \cap Names(s') : m = s.cur \/ s'.imgs[m] = s.imgs[m] ]_vars
\* what is copied or cloned is equal to the original
CopiesEqual == [][ /\ (lc'.op = "Clone" => s'.imgs[lc'.r] = NoSubs(Cur(s)))
                   /\ (lc'.op = "CopyImage" /\ s' # s /\ lc'.a[1] \in Names(s) => NoSubs(Cur(s')) = NoSubs(s.imgs[lc'.a[1]])) ]_vars
\* selecting: the n-th element of the list, or nothing changes
Selects == [][ lc'.op \in {"ActN", "ActM", "ActL", "ActF"} =>
                 /\ s'.imgs = s.imgs
                 /\ LET x == CASE lc'.op = "ActN" -> "N" [] lc'.op = "ActM" -> "M" [] lc'.op = "ActL" -> "L" [] OTHER -> "F"
                        i == lc'.a[1]
                    IN IF i > ChainLen(Cur(s), x) \/ i = 0 THEN s' = s
                       ELSE s'.path = s.path \o Rep(x, i) /\ Cur(s') = At(Cur(s), Rep(x, i)) ]_vars
===============================================================================
