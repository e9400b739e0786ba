------------------------------- MODULE ILTrace -------------------------------
(* Conformance of recorded executions: every event of every trace must be a   *)
(* step of ILSys, and every observation must agree with the predicted state.  *)
EXTENDS ILSys, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.ILTRACE)

VARIABLES i, l, s, verdict

\* Recorded errors against predicted ones (both newest first).
ErOk(p, x) == \/ p = x
              \/ p = Maybe
              \/ p = Some /\ x # <<>>
ROk(p, x) == p = -999 \/ p = x
\* (the driver cuts long outputs off)
OOk(p, x) == MatchSeq(IF Len(x) >= 1400 /\ Len(p) > Len(x) THEN SubSeq(p, 1, Len(x)) ELSE p, x)

Names5k(q) == {n \in Names(q) : n < 5000}
\* The image a delta audit reports for name n: logged if it changed since the last audit.
Logged(e, n) == {k \in 1..Len(e.all) : e.all[k].n = n}
AuditOk(q, e, aud) ==
    /\ {e.ns[k] : k \in 1..Len(e.ns)} = Names5k(q)
    /\ \A n \in Names5k(q) :
          LET K == Logged(e, n) IN
          IF K = {} THEN n \in DOMAIN aud /\ Match(q.imgs[n], aud[n])
          ELSE LET t == e.all[CHOOSE k \in K : TRUE].t IN WF(t) /\ Match(q.imgs[n], FromLog(t))
AuditVal(q, e, aud, n) == LET K == Logged(e, n) IN IF K = {} THEN aud[n] ELSE FromLog(e.all[CHOOSE k \in K : TRUE].t)
HasAll(e) == "all" \in DOMAIN e
HasT(e) == "t" \in DOMAIN e
HasIm(e) == "im" \in DOMAIN e
HasEr(e) == "er" \in DOMAIN e
Loaded(q, e) == IF HasT(e) THEN FromLog(e.t[1]) ELSE AuditVal(q, e, q.aud, q.cur)
\* Observation: what is wrong with it ("" if nothing), and the state after taking it over.
Wrong(q, e) ==
    IF HasAll(e) /\ ~AuditOk(q, e, q.aud) THEN "images"
    ELSE IF HasT(e) /\ ~(Len(e.t) = 1 /\ WF(e.t[1]) /\ Match(Base(q), FromLog(e.t[1]))) THEN "current image tree"
    ELSE IF HasIm(e) /\ ~(Len(e.im) = 1 /\ WFHead(e.im[1].h) /\ MatchHead(Cur(q), FromHead(e.im[1]))) THEN "current image"
    ELSE IF "cn" \in DOMAIN e /\ q.up /\ e.cn # <<q.cur>> THEN "current name"
    ELSE IF "nav" \in DOMAIN e /\ e.nav # NavOf(q) THEN "navigation counts"
    ELSE IF q.want # NoPic /\ (HasAll(e) \/ HasT(e)) /\ ~PicOk(q.want, Loaded(q, e)) THEN "picture"
    ELSE IF "io" \in DOMAIN e /\ ~(e.io[1] = e.io[2] /\ e.io[3] = 0 /\ e.io[4] = 0) THEN "file handles"
    ELSE ""
Adopt(q, e) ==
    IF HasAll(e) THEN LET A == [n \in Names5k(q) |-> Merge(q.imgs[n], AuditVal(q, e, q.aud, n))]
                      IN [q EXCEPT !.imgs = A @@ @, !.aud = [n \in Names5k(q) |-> AuditVal(q, e, q.aud, n)]]
    ELSE IF HasT(e) THEN [q EXCEPT !.imgs = [@ EXCEPT ![q.cur] = Merge(@, FromLog(e.t[1]))]]
    ELSE IF HasIm(e) THEN SetCur(q, [FromHead(e.im[1]) EXCEPT !.N = Cur(q).N, !.M = Cur(q).M, !.L = Cur(q).L, !.F = Cur(q).F])
    ELSE q

\* What loading gave is remembered for the same content.
Learn(q) == IF q.pend = <<>> THEN [q EXCEPT !.want = NoPic]
            ELSE [q EXCEPT !.want = NoPic, !.pend = <<>>, !.memo = IF Settled(q.imgs[q.cur]) THEN (q.pend :> [r |-> 1, n |-> q.imgs[q.cur]]) @@ @ ELSE @]

\* Blocks of memory in use: never more than when the system last was in a like state.
Shape(n) == <<>>
RECURSIVE TreeShape(_)
TreeShape(n) == <<n.pt = IL_PAL_NONE>> \o [k \in 1..4 |-> LET q == n[<<"N", "M", "L", "F">>[k]] IN IF q = <<>> THEN <<>> ELSE TreeShape(q[1])]
LiveKey(q) == <<[n \in Names(q) |-> TreeShape(q.imgs[n])], q.ever, Len(q.stk), q.up>>
LiveSeen(q) == {k \in 1..Len(q.lives) : q.lives[k][1] = LiveKey(q)}
LiveOk(q, e) == \A k \in LiveSeen(q) : e.r <= q.lives[k][2]
LiveAdd(q, e) == [q EXCEPT !.lives = Append(@, <<LiveKey(q), e.r>>)]

Start(e) == [S0 EXCEPT !.imgs = [n \in {0, 1} |-> AuditVal(S0, e, <<>>, n)], !.aud = [n \in {0, 1} |-> AuditVal(S0, e, <<>>, n)],
                     !.first = [n \in {0, 1} |-> AuditVal(S0, e, <<>>, n)]]
StartOk(e) == /\ \A k \in 1..Len(e.all) : WF(e.all[k].t)
              /\ e.ns = <<0, 1>> /\ e.cn = <<1>>
              /\ Match(NewNode, FromLog(e.all[2].t))
              /\ NoSubs(FromLog(e.all[1].t)) = FromLog(e.all[1].t)

E == Traces[i].t[l]
\* [v: what is wrong with event e as the step R from q (<<"ok">>: nothing), s: the state after it]
Try(q, e, R) ==
    LET errs1 == IF HasEr(e) THEN <<>> ELSE AddErr(R.s.errs, R.er)
        s1 == [R.s EXCEPT !.errs = errs1, !.ever = @ \cup Names(R.s)]
        s2 == IF e.op = "Live" THEN LiveAdd(s1, e) ELSE s1
        no(v) == [v |-> v, s |-> q]
    IN IF ~R.ok THEN no(<<"not allowed", e>>)
       ELSE IF ~ROk(R.r, e.r) THEN no(<<"returned", e.r, "expected", R.r>>)
       ELSE IF ~OOk(R.o, e.o) THEN no(<<"output", e.o, "expected", R.o>>)
       ELSE IF HasEr(e) /\ ~ErOk(AddErr(q.errs, R.er), e.er) THEN no(<<"errors", e.er, "expected", R.er>>)
       ELSE IF e.op = "Live" /\ ~LiveOk(s1, e) THEN no(<<"memory", e.r>>)
       ELSE LET w == Wrong(s2, e) IN
            IF w # "" THEN no(<<w, IF HasAll(e) THEN {<<n, IF n \in Names(s2) /\ (Logged(e, n) # {} \/ n \in DOMAIN s2.aud) THEN Diff(s2.imgs[n], AuditVal(s2, e, s2.aud, n)) ELSE <<"?">> >> : n \in {e.ns[k] : k \in 1..Len(e.ns)}}
                                   ELSE IF HasT(e) /\ Len(e.t) = 1 THEN Diff(Base(s2), FromLog(e.t[1]))
                                   ELSE IF HasIm(e) /\ Len(e.im) = 1 THEN Diff(NoSubs(Cur(s2)), FromHead(e.im[1])) ELSE <<e>> >>)
            ELSE [v |-> <<"ok">>, s |-> TLCEval(Learn(Adopt(s2, e)))]
Step ==
    LET e == E IN
    IF e.op = "Crash" THEN verdict' = <<"crash", e.sa, e.a>> /\ UNCHANGED s
    ELSE IF e.op = "Start" THEN (IF StartOk(e) THEN s' = Start(e) /\ verdict' = <<"ok">> ELSE verdict' = <<"start">> /\ UNCHANGED s)
    ELSE LET x == Try(s, e, Do(s, e))
             y == IF x.v = <<"ok">> \/ ~s.oom \/ e.op = "AllocInfo" THEN x 
                  ELSE LET n == Try(s, e, Noted(Do(s, e))) z == Try(s, e, Starved(s, e)) IN
                       IF n.v = <<"ok">> THEN n ELSE IF z.v = <<"ok">> THEN z ELSE [x EXCEPT !.v = <<"short of memory", @, z.v>>]
         IN s' = y.s /\ verdict' = y.v

Init == i \in 1..Len(Traces) /\ l = 1 /\ s = S0 /\ verdict = <<"ok">>
Next == /\ verdict = <<"ok">>
        /\ l <= Len(Traces[i].t)
        /\ Step
        /\ i' = i
        /\ l' = IF verdict' = <<"ok">> THEN l + 1 ELSE l
        /\ IF verdict' # <<"ok">> THEN PrintT(<<"REJECT", Traces[i].id, l, E.op, E.a, verdict'>>)
           ELSE IF l = Len(Traces[i].t) THEN PrintT(<<"DONE", Traces[i].id>>) ELSE TRUE
View == <<i, l, verdict = <<"ok">>>>
===============================================================================
