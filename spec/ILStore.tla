------------------------------- MODULE ILStore -------------------------------
(* Image names, binding, sub-image selection, copies and clones.              *)
(*                                                                            *)
(* The system state is a record s:                                            *)
(*   up     the library is started        imgs   name -> image (0: default)   *)
(*   cur    name of the current image     path   selection below its base     *)
(*   st     settings (ILStates)           stk    saved settings               *)
(*   errs   errors not yet fetched        hints  hint settings                *)
(*   ...    further components of the other modules (see ILSys!S0)            *)
(* A command c is a record [op, a, d, nod, sa] together with what the call    *)
(* returned, [r, o]: where the specification leaves a choice (which fresh     *)
(* name, say), the observed result is the choice that was made, and `ok' says *)
(* whether it is an allowed one.                                              *)
EXTENDS ILPixel

\* Result of a command.  r = -999: any.  o = Wild: any.  er: see ErOk.
None == <<>>
Some == <<-1>>
Maybe == <<-2>>
Res(s, r, er) == [ok |-> TRUE, s |-> s, r |-> r, o |-> <<>>, er |-> er]
ResO(s, r, o, er) == [ok |-> TRUE, s |-> s, r |-> r, o |-> o, er |-> er]
Bad(s) == [ok |-> FALSE, s |-> s, r |-> -999, o |-> Wild, er |-> Maybe]
Same(s, r) == Res(s, r, None)
Fail(s) == Res(s, 0, Some)
B(x) == IF x THEN 1 ELSE 0

Cur(s) == At(s.imgs[s.cur], s.path)
SetCur(s, n) == [s EXCEPT !.imgs = [@ EXCEPT ![s.cur] = SetAt(@, s.path, n)]]
Base(s) == s.imgs[s.cur]
Pick(s, name) == [s EXCEPT !.cur = name, !.path = <<>>]
Names(s) == DOMAIN s.imgs
IsName(s, n) == n # 0 /\ n \in Names(s)

Gen(s, num, names) ==
    IF num < 1 THEN Res(s, -999, Some)
    ELSE [ok |-> /\ Len(names) = num
                 /\ \A i \in 1..num : names[i] > 0 /\ names[i] \notin Names(s)
                 /\ Cardinality({names[i] : i \in 1..num}) = num,
          s |-> [s EXCEPT !.imgs = [n \in {names[i] : i \in 1..num} |-> NewNode] @@ @],
          r |-> -999, o |-> names, er |-> None]
Bind(s, n) == IF n = -1 THEN Res(s, -999, Some)          \* 0xFFFFFFFF is not a possible name
              ELSE LET s1 == IF n \in Names(s) THEN s ELSE [s EXCEPT !.imgs = (n :> NewNode) @@ @]
                   IN Res(Pick(s1, n), -999, None)
Delete(s, names) ==
    LET gone == {names[i] : i \in 1..Len(names)} \ {0}
        s1 == [s EXCEPT !.imgs = [n \in Names(s) \ gone |-> s.imgs[n]]]
    IN Res(IF s.cur \in gone THEN Pick(s1, 0) ELSE s1, -999, None)
\* Selecting the n-th element of a list of the current image.
Activate(s, k, n) ==
    IF n = 0 THEN Same(s, 1)
    ELSE IF n < 0 \/ n > ChainLen(Cur(s), k) THEN Fail(s)
    ELSE Same([s EXCEPT !.path = @ \o Rep(k, n)], 1)
SubDir(t) == CASE t = IL_SUB_NEXT -> "N" [] t = IL_SUB_MIPMAP -> "M" [] t = IL_SUB_LAYER -> "L" [] OTHER -> "?"
CreateSub(s, t, num) ==
    IF num = 0 THEN Res(s, 0, Maybe)
    ELSE IF SubDir(t) = "?" THEN Fail(s)
    ELSE Same(SetCur(s, [Cur(s) EXCEPT ![SubDir(t)] = MkChain(SubDir(t), num)]), num)
\* Registering a number of sub-images works on the base image and selects it.
RegisterNum(s, k, num) == Same(LET s1 == [s EXCEPT !.path = <<>>] IN SetCur(s1, [Cur(s1) EXCEPT ![k] = MkChain(k, num)]), 1)
Clone(s, name) ==
    [ok |-> name > 0 /\ name \notin Names(s),
     s |-> [s EXCEPT !.imgs = (name :> NoSubs(Cur(s))) @@ @], r |-> name, o |-> <<>>, er |-> None]
\* Copying replaces the current image, which thereby loses its own sub-images; those of the source
\* are not copied.  A name that is not in use is brought into existence, as by binding it.
CopyFrom(s, n) ==
    IF s.cur = 0 \/ n = -1 THEN Fail(s)
    ELSE LET s1 == IF n \in Names(s) THEN s ELSE [s EXCEPT !.imgs = (n :> NewNode) @@ @]
         IN IF n = s.cur /\ s.path = <<>> THEN Same(s, 1)
            ELSE Same(SetCur(s1, NoSubs(s1.imgs[n])), 1)

\* Position of the selection along one list of the base image.
RECURSIVE IsRun(_, _)
IsRun(p, k) == p = <<>> \/ (p[1] = k /\ IsRun(Tail(p), k))
ActiveIdx(s, k) == IF IsRun(s.path, k) THEN Len(s.path) ELSE 0
NavOf(s) == << s.cur, ActiveIdx(s, "N"), ChainLen(Cur(s), "N"), ChainLen(Cur(s), "M"), ChainLen(Cur(s), "L"), ChainLen(Cur(s), "F") >>

StoreOps == {"Gen", "Gen1", "Bind", "Del", "Del1", "IsImage", "CurName", "BindCur", "Clone", "CopyImage", "Sub", "ActN", "ActM", "ActL", "ActF",
             "RegN", "RegM", "RegF", "iluGen", "iluDel", "CurIsNull", "SetDuration", "iluInfo"}
DoStore(s, c) ==
    CASE c.op = "Gen" -> Gen(s, c.a[1], c.o)
      [] c.op = "Gen1" -> [Gen(s, 1, <<c.r>>) EXCEPT !.o = <<>>]
      [] c.op = "iluGen" -> LET g == Gen(s, 1, <<c.r>>) IN IF g.ok THEN [Bind(g.s, c.r) EXCEPT !.r = c.r] ELSE g
      [] c.op = "Bind" -> Bind(s, c.a[1])
      [] c.op \in {"Del", "Del1", "iluDel"} -> Delete(s, c.a)
      [] c.op = "IsImage" -> Same(s, B(IsName(s, c.a[1])))
      [] c.op = "BindCur" -> Same([s EXCEPT !.path = <<>>], -999)
      [] c.op = "CurName" -> Same(s, s.cur)
      [] c.op = "Clone" -> Clone(s, c.r)
      [] c.op = "CopyImage" -> CopyFrom(s, c.a[1])
      [] c.op = "Sub" -> CreateSub(s, c.a[1], c.a[2])
      [] c.op = "ActN" -> Activate(s, "N", c.a[1])
      [] c.op = "ActM" -> Activate(s, "M", c.a[1])
      [] c.op = "ActL" -> Activate(s, "L", c.a[1])
      [] c.op = "ActF" -> Activate(s, "F", c.a[1])
      [] c.op = "RegN" -> RegisterNum(s, "N", c.a[1])
      [] c.op = "RegM" -> RegisterNum(s, "M", c.a[1])
      [] c.op = "RegF" -> RegisterNum(s, "F", c.a[1])
      [] c.op = "SetDuration" -> Same(SetCur(s, [Cur(s) EXCEPT !.du = c.a[1]]), 1)
      [] c.op = "iluInfo" -> LET n == Cur(s) IN
           ResO(s, -999, << n.w, n.h, n.d, Bpp(n.f), Size(n), n.f, n.t, n.o, n.pt, IF n.pal = Wild \/ IsHash(n.pal) THEN -9 ELSE Len(n.pal), ChainLen(n, "N"), ChainLen(n, "M"), ChainLen(n, "L"), 1, 1 >>, None)
      [] c.op = "CurIsNull" -> Same(s, 0)
===============================================================================
