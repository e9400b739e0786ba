------------------------------- MODULE ILPixel -------------------------------
(* Images as values: formats, channel types, byte layout, and what it means   *)
(* for an observed image to be the image that the specification predicts.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, ILConst

\* Channels of a pixel format (0: not a format).
Bpp(f) == CASE f \in {IL_COLOUR_INDEX, IL_LUMINANCE, IL_ALPHA} -> 1
            [] f = IL_LUMINANCE_ALPHA -> 2
            [] f \in {IL_RGB, IL_BGR} -> 3
            [] f \in {IL_RGBA, IL_BGRA} -> 4
            [] OTHER -> 0
\* Bytes of a channel type (0: not a type).
Bpc(t) == CASE t \in {IL_BYTE, IL_UNSIGNED_BYTE} -> 1
            [] t \in {IL_SHORT, IL_UNSIGNED_SHORT, IL_HALF} -> 2
            [] t \in {IL_INT, IL_UNSIGNED_INT, IL_FLOAT} -> 4
            [] t = IL_DOUBLE -> 8
            [] OTHER -> 0
FloatTypes == {IL_FLOAT, IL_DOUBLE}
\* Entry width of a palette layout (0: not a layout).
PalBpp(p) == CASE p \in {IL_PAL_RGB24, IL_PAL_BGR24} -> 3
               [] p \in {IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR32, IL_PAL_BGRA32} -> 4
               [] OTHER -> 0
PalBase(p) == CASE p = IL_PAL_RGB24 -> IL_RGB [] p \in {IL_PAL_RGB32, IL_PAL_RGBA32} -> IL_RGBA
                [] p = IL_PAL_BGR24 -> IL_BGR [] p \in {IL_PAL_BGR32, IL_PAL_BGRA32} -> IL_BGRA
                [] OTHER -> 0

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Dirs == {"N", "M", "L", "F"}

(* ---------------------------------------------------------------- values  *)
(* Byte sequences.  Negative entries stand for what the specification leaves *)
(* open or what the log abbreviates:                                         *)
(*   <<-9>>            anything            -9 at a position: that byte is open *)
(*   <<-1, hi, lo>>    (log) digest of a sequence too long to be logged       *)
(*   1000000+1000*lo+hi at a position: any byte value in lo..hi               *)
(*   3000000+v, 4000000+tol at adjacent positions: 16-bit value v, +-tol      *)
Wild == <<-9>>
IsHash(d) == Len(d) = 3 /\ d[1] = -1
\* <<-7>> \o colours (r, g, b per pixel): indices into the image's palette that show those colours
IsShow(d) == Len(d) > 0 /\ d[1] = -7
Known(d) == Len(d) > 0 /\ d # Wild /\ ~IsHash(d) /\ ~IsShow(d)
Rng(lo, hi) == IF lo = hi THEN lo ELSE 1000000 + 1000 * Max2(lo, 0) + Min2(hi, 255)
OneOk(p, x) == \/ p = x
               \/ p = -9
               \/ p >= 1000000 /\ p < 2000000 /\ (p - 1000000) \div 1000 <= x /\ x <= (p - 1000000) % 1000
\* Two adjacent entries (low, high byte) for a 16-bit value v +- tol.
P16(v, tol) == << 3000000 + Min2(Max2(v, 0), 65535), 4000000 + tol >>
IsP16(e) == e >= 3000000
MatchSeq(p, x) ==
    \/ p = x
    \/ p = Wild
    \/ x = Wild
    \/ IsHash(x) /\ ~IsHash(p) /\ Len(p) > 3           \* predicted in full, logged as digest
    \/ /\ Len(p) = Len(x)
       /\ ~IsHash(x)
       /\ \A i \in 1..Len(p) :
            IF p[i] < 3000000 THEN OneOk(p[i], x[i])
            ELSE IF p[i] >= 4000000 THEN TRUE                 \* with the entry before it
            ELSE Abs(p[i] - 3000000 - (x[i] + 256 * x[i + 1])) <= p[i + 1] - 4000000
\* Channel values of floating point images, in 1/65535ths.
MatchFl(p, x) == \/ p = Wild \/ x = Wild \/ p = x
                 \/ Len(p) = Len(x) /\ \A i \in 1..Len(p) : p[i] = -99999 \/ Abs(p[i] - x[i]) <= 3 + (Abs(p[i]) \div 20000)

(* ---------------------------------------------------------------- images  *)
NewNode == [w |-> 1, h |-> 1, d |-> 1, f |-> IL_LUMINANCE, t |-> IL_UNSIGNED_BYTE,
            o |-> IL_ORIGIN_LOWER_LEFT, du |-> 0, ox |-> 0, oy |-> 0, cb |-> 0,
            pt |-> IL_PAL_NONE, pal |-> <<>>, dat |-> Wild, fl |-> Wild,
            N |-> <<>>, M |-> <<>>, L |-> <<>>, F |-> <<>>]
WildSub == << [NewNode EXCEPT !.w = -7] >>       \* a list of sub-images that is left open
Count(n) == n.w * n.h * n.d
Size(n) == n.w * n.h * n.d * Bpp(n.f) * Bpc(n.t)
NoSubs(n) == [n EXCEPT !.N = <<>>, !.M = <<>>, !.L = <<>>, !.F = <<>>]
HasAlpha(f) == f \in {IL_RGBA, IL_BGRA, IL_LUMINANCE_ALPHA, IL_ALPHA}
\* Does the image hold exactly the declared number of data bytes (when known)?
SizeOk(n) == \/ n.dat = Wild \/ IsHash(n.dat) \/ IsShow(n.dat)
             \/ Len(n.dat) = Size(n)

(* ---------------------------------------------------------------- the log *)
(* h = [w,h,d,bpp,bpc,bps,size,plane,format,type,origin,duration,offx,offy,  *)
(*      cubeflags,paltype,palsize,data block size,palette block size]        *)
RECURSIVE WF(_)
WFHead(h) ==
    /\ Len(h) = 19
    /\ h[1] >= 1 /\ h[2] >= 1 /\ h[3] >= 1
    /\ h[4] = Bpp(h[9]) /\ h[4] > 0
    /\ h[5] = Bpc(h[10]) /\ h[5] > 0
    /\ h[6] = h[1] * h[4] * h[5]
    /\ h[8] = h[6] * h[2]
    /\ h[7] = h[8] * h[3]
    /\ h[18] >= h[7]
    /\ h[11] \in {IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT}
    /\ \/ h[16] = IL_PAL_NONE /\ h[17] = 0
       \/ PalBpp(h[16]) > 0 /\ h[19] >= h[17]
WF(l) == /\ WFHead(l.h)
         /\ \A k \in Dirs : l[k] = <<>> \/ (Len(l[k]) = 1 /\ WF(l[k][1]))
Opt(r, k, dflt) == IF k \in DOMAIN r THEN r[k] ELSE dflt
FromHead(l) ==
    [w |-> l.h[1], h |-> l.h[2], d |-> l.h[3], f |-> l.h[9], t |-> l.h[10], o |-> l.h[11],
     du |-> l.h[12], ox |-> l.h[13], oy |-> l.h[14], cb |-> l.h[15],
     pt |-> l.h[16], pal |-> IF l.h[17] = 0 THEN <<>> ELSE Opt(l, "p", Wild),
     dat |-> Opt(l, "d", Wild), fl |-> Opt(l, "f", Wild),
     N |-> <<>>, M |-> <<>>, L |-> <<>>, F |-> <<>>]
RECURSIVE FromLog(_)
FromLog(l) == [FromHead(l) EXCEPT
     !.N = IF l.N = <<>> THEN <<>> ELSE <<FromLog(l.N[1])>>,
     !.M = IF l.M = <<>> THEN <<>> ELSE <<FromLog(l.M[1])>>,
     !.L = IF l.L = <<>> THEN <<>> ELSE <<FromLog(l.L[1])>>,
     !.F = IF l.F = <<>> THEN <<>> ELSE <<FromLog(l.F[1])>>]

\* -9 in a scalar field leaves it open.
Sc(p, x) == p = x \/ p = -9
\* Indices x.dat stay within the palette and show the colours expected (those that are).
ShowOk(d, x) ==
    \/ x.dat = Wild \/ IsHash(x.dat) \/ x.pal = Wild \/ IsHash(x.pal)
    \/ LET w == PalBpp(x.pt) IN
       /\ w > 0
       /\ \A i \in 1..Len(x.dat) : x.dat[i] * w + w <= Len(x.pal)
       /\ Len(d) = 1 \/ \A i \in 1..Len(x.dat), j \in 1..3 :
             LET k == IF x.pt \in {IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32} THEN 4 - j ELSE j
             IN OneOk(d[3 * i - 2 + j], x.pal[x.dat[i] * w + k])
MatchHead(p, x) == /\ Sc(p.w, x.w) /\ Sc(p.h, x.h) /\ Sc(p.d, x.d) /\ Sc(p.f, x.f) /\ Sc(p.t, x.t) /\ Sc(p.o, x.o)
                   /\ Sc(p.du, x.du) /\ Sc(p.ox, x.ox) /\ Sc(p.oy, x.oy) /\ Sc(p.cb, x.cb)
                   /\ Sc(p.pt, x.pt) /\ MatchSeq(p.pal, x.pal)
                   /\ (IF IsShow(p.dat) THEN ShowOk(p.dat, x) ELSE MatchSeq(p.dat, x.dat)) /\ MatchFl(p.fl, x.fl)
RECURSIVE Match(_, _)
Match(p, x) == \/ p = x
               \/ /\ MatchHead(p, x)
                  /\ \A k \in Dirs : \/ p[k] = WildSub
                                     \/ p[k] = <<>> /\ x[k] = <<>>
                                     \/ p[k] # <<>> /\ x[k] # <<>> /\ Match(p[k][1], x[k][1])
\* What is known after a matching observation.
RECURSIVE Merge(_, _)
Merge(p, x) == IF p = x THEN x
    ELSE [x EXCEPT !.dat = IF x.dat = Wild THEN p.dat ELSE x.dat,
                   !.pal = IF x.pal = Wild THEN p.pal ELSE x.pal,
                   !.N = IF x.N = <<>> \/ p.N = WildSub THEN x.N ELSE <<Merge(p.N[1], x.N[1])>>,
                   !.M = IF x.M = <<>> \/ p.M = WildSub THEN x.M ELSE <<Merge(p.M[1], x.M[1])>>,
                   !.L = IF x.L = <<>> \/ p.L = WildSub THEN x.L ELSE <<Merge(p.L[1], x.L[1])>>,
                   !.F = IF x.F = <<>> \/ p.F = WildSub THEN x.F ELSE <<Merge(p.F[1], x.F[1])>>]
\* Why an observation does not match, for diagnosis.
RECURSIVE Diff(_, _)
Diff(p, x) == IF Match(p, x) THEN <<>>
              ELSE IF ~MatchHead(p, x) THEN << {<<k, p[k], x[k]>> : k \in {k \in DOMAIN p \ Dirs : p[k] # x[k]}} >>
              ELSE LET B == {k \in Dirs : ~(p[k] = WildSub \/ (p[k] = <<>> /\ x[k] = <<>>) \/ (p[k] # <<>> /\ x[k] # <<>> /\ Match(p[k][1], x[k][1])))}
                       k == CHOOSE k \in B : TRUE
                   IN IF p[k] = <<>> \/ x[k] = <<>> THEN <<k, Len(p[k]), Len(x[k])>> ELSE <<k>> \o Diff(p[k][1], x[k][1])

(* ------------------------------------------------------- places in a tree *)
RECURSIVE At(_, _)
At(n, p) == IF p = <<>> THEN n ELSE At(n[p[1]][1], Tail(p))
RECURSIVE SetAt(_, _, _)
SetAt(n, p, x) == IF p = <<>> THEN x ELSE [n EXCEPT ![p[1]] = <<SetAt(n[p[1]][1], Tail(p), x)>>]
RECURSIVE ChainLen(_, _)
ChainLen(n, k) == IF n[k] = <<>> THEN 0 ELSE 1 + ChainLen(n[k][1], k)
RECURSIVE MkChain(_, _)
MkChain(k, num) == IF num = 0 THEN <<>> ELSE << [NewNode EXCEPT ![k] = MkChain(k, num - 1)] >>
Rep(x, num) == [i \in 1..num |-> x]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
===============================================================================
