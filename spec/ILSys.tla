-------------------------------- MODULE ILSys --------------------------------
(* The whole system: initial state, and what each call does to it.            *)
EXTENDS ILDxt

\* State right after ilInit: the default image (its contents are observed) and image 1.
S0 == [up |-> TRUE, imgs |-> (0 :> NewNode @@ 1 :> NewNode), cur |-> 1, path |-> <<>>,
       st |-> StDefault, str |-> StrDefault, stk |-> <<>>, errs |-> <<>>,
       aud |-> <<>>, clr |-> <<>>, key |-> <<0, 0, 0, 0>>, lives |-> <<>>, ever |-> {1}, fault |-> FALSE, oom |-> FALSE, starved |-> FALSE,
       cmp |-> IL_USE_COMPRESSION, files |-> <<>>, pics |-> <<>>, memo |-> <<>>, saved |-> <<>>, raw |-> <<>>, plainfiles |-> {}, spoilt |-> {},
       want |-> NoPic, pend |-> <<>>, hl |-> <<>>, hs |-> <<>>, plog |-> <<>>, prets |-> <<>>,
       ilu |-> IluDefault, ut |-> UtDefault, utk |-> <<>>, first |-> (0 :> NewNode @@ 1 :> NewNode), reg |-> NoRegion, dx |-> <<>>]

\* ---- allocations that fail
\* FailAlloc: the next call runs short of memory; AllocInfo: c.o = [allocations asked for, refused]
AllocOps == {"FailAlloc", "AllocInfo"}
DoAlloc(s, c) ==
    CASE c.op = "FailAlloc" -> Res([s EXCEPT !.oom = TRUE, !.starved = FALSE], -999, None)
      [] c.op = "AllocInfo" -> [ResO([s EXCEPT !.oom = FALSE, !.starved = FALSE], -999, Wild, None) EXCEPT !.ok = s.starved => c.o[2] > 0]
ControlOps == {"Note", "Audit", "MaxData", "Live"}
DoControl(s, c) == Same(s, -999)

DoOther(s, c) ==
    CASE c.op \in StoreOps -> DoStore(s, c)
      [] c.op \in StateOps -> DoStates(s, c)
      [] c.op \in ConvOps -> DoConv(s, c)
      [] c.op \in EditOps -> DoEdit(s, c)
      [] c.op \in FileOps -> DoFile(s, c)
      [] c.op \in ToolOps -> DoTool(s, c)
      [] c.op \in UtilOps -> DoUtil(s, c)
      [] c.op \in FilterOps -> DoFilter(s, c)
      [] c.op \in AllocOps -> DoAlloc(s, c)
      [] c.op = "Live" -> [Same(s, LiveRule(s)) EXCEPT !.o = Wild]
      [] c.op \in ControlOps -> [DoControl(s, c) EXCEPT !.o = Wild]
      [] OTHER -> Bad(s)
\* What a call may do instead of its usual effect when it runs short of memory: fail, with an error, at the expense of no
\* other than the image it works on.
FaultOps == {"Save", "SaveImage", "SaveF", "SaveLQ", "SaveL", "SaveData", "Det", "DetF", "DetL", "IsValid", "IsValidF", "IsValidL"}
Starved(s, c) ==
    LET \* a name that the call was to bring into existence may be there by now
        made == IF c.op \in {"CopyImage", "Blit", "Overlay"} /\ "ns" \in DOMAIN c THEN ({c.a[1]} \cap {c.ns[k] : k \in 1..Len(c.ns)}) \ Names(s) ELSE {}
        q == [s EXCEPT !.imgs = [n \in made |-> NewNode] @@ [@ EXCEPT ![s.cur] = OpenNode], !.path = <<>>, !.dx = [x \in {x \in DOMAIN @ : x[1] # s.cur} |-> @[x]], !.reg = @]
        known == c.op \in FaultOps
        given == Cardinality({k \in 1..Len(c.o) : c.o[k] # -16})
        R == IF known THEN DoOther([s EXCEPT !.fault = TRUE], c)
             ELSE IF c.op = "Gen" /\ given = 0 THEN [ok |-> TRUE, s |-> s, r |-> -999, o |-> Wild, er |-> Some]
             ELSE IF c.op = "Gen" THEN [DoOther(s, [c EXCEPT !.a = <<given>>, !.o = SubSeq(@, 1, given)]) EXCEPT !.o = Wild]
             ELSE [ok |-> TRUE, s |-> q, r |-> -999, o |-> Wild, er |-> Some]
    IN [R EXCEPT !.ok = @ /\ (c.r = 0 \/ (c.op = "SaveL" /\ c.r = -1) \/ (c.op = "Sub" /\ c.r \in 0..(c.a[2] - 1)) \/ c.op = "Gen"), !.s.fault = FALSE, !.s.starved = TRUE, !.er = Some]
\* Or the usual effect, noting the shortage.
Noted(R) == [R EXCEPT !.er = Maybe]
\* nothing is learnt about contents from a call that ran short of memory
Careful(s, R) == IF s.oom THEN [R EXCEPT !.s.memo = s.memo, !.s.pend = <<>>] ELSE R

Do(s, c) == Careful(s, IF c.op \in DxtOps THEN DoDxt(s, c) ELSE DxtAfter(s, c, DoOther(s, c)))
===============================================================================
