------------------------------ MODULE Contract ------------------------------
(* The contract of one AMQP 1.0 endpoint (src/): a deterministic monitor over *)
(* everything observable - frames in both directions, application calls and   *)
(* their results, control / publish / handler service events, and the state   *)
(* the public API reports at quiescence.  Step(st, e) consumes one event and  *)
(* records in st.v every property the event contradicts.                      *)
(*                                                                            *)
(* Timing facts the rules rely on:                                            *)
(*  - "in" is logged when the bytes are handed to the endpoint, before it     *)
(*    reads them; "ret"/"ctl"/"msg"/"hnd" are logged as they happen; "out" is *)
(*    logged when the peer reads it, in wire order, never before it was sent; *)
(*  - at "q" everything received has been processed and everything sent read. *)
(* Hence permissions look at what may have been processed, obligations are    *)
(* only judged at "q".                                                        *)
EXTENDS Base

NoPart == [on |-> FALSE, did |-> 0, tag |-> "", fmt |-> -1, st |-> FALSE, body |-> <<>>, blen |-> 0, opt |-> FALSE, ps |-> 0, ss |-> {}]
NoCn == [cin |-> FALSE, cout |-> FALSE, eof |-> FALSE, force |-> FALSE, fat |-> FALSE, fatw |-> "", fats |-> 0,
         lclose |-> FALSE, ioend |-> FALSE, done |-> FALSE, mal |-> FALSE, deadq |-> FALSE, cerr |-> "", lerr |-> {}, svcerr |-> FALSE,
         nclosed |-> 0, ndisc |-> 0, nperr |-> 0, opened |-> FALSE, first |-> "", sdc |-> 0, sdp |-> 0,
         lcn |-> 0, lcr |-> 0]   \* closes of links: counted, the last one reported to the control service

InitState(c) ==
  [cfg |-> c, v |-> {}, cn |-> NoCn, ss |-> <<>>, ls |-> <<>>, su |-> <<>>, lu |-> <<>>,
   ops |-> <<>>, sn |-> <<>>, wd |-> {}, ad |-> <<>>, ar |-> <<>>, sd |-> <<>>, rd |-> <<>>,
   cx |-> <<>>, ct |-> <<>>, mg |-> <<>>, hd |-> <<>>, hm |-> <<>>, hrd |-> "ok", srd |-> {}, nq |-> 0, mexp |-> <<>>, lcx |-> {}, ab |-> <<>>]

NewSess == [och |-> -1, ich |-> -1, ob |-> FALSE, ib |-> FALSE, oe |-> FALSE, ie |-> FALSE, ieq |-> FALSE, loc |-> FALSE, lend |-> FALSE,
            uid |-> -1, tx |-> 0, onoi |-> 0, wl |-> {}, wlast |-> 0, iw |-> 0, inoi |-> 0, rx |-> 0, rxq |-> 0,
            did |-> -1000000000, mal |-> FALSE, full |-> FALSE, echo |-> FALSE, ierr |-> ""]
NewLink == [s |-> 0, nm |-> "", role |-> "S", loc |-> FALSE, op |-> 0, oa |-> FALSE, ia |-> FALSE, od |-> FALSE, id |-> FALSE, idq |-> FALSE,
            oh |-> -1, ih |-> -1, uid |-> -1, lc |-> FALSE, lcn |-> 0, cs |-> "", cerr |-> "", dr |-> {}, orphan |-> FALSE,
            tseg |-> <<>>, hastgt |-> FALSE, src |-> "", refused |-> FALSE,
            dc0 |-> 0, cnt |-> 0, lims |-> {}, llast |-> 0, amb |-> FALSE, relp |-> FALSE, cur |-> NoPart, mms |-> {}, dmax |-> -1000000000, cred |-> FALSE,
            gseen |-> 0, gq |-> <<>>, imp |-> FALSE, got |-> 0, gotc |-> 0, gotq |-> 0, part |-> NoPart, mmx |-> {262144},
            q |-> <<>>, qn |-> 0, viol |-> "", hid |-> -1, eos |-> FALSE, mlast |-> 262144, derr |-> "", dtold |-> FALSE, dby |-> FALSE,
            ma |-> FALSE, mok |-> FALSE, md |-> FALSE, mt |-> 0, mtc |-> 0, mtn |-> 0]   \* publish service: told of attach, accepted it, told of detach, of deliveries; deliveries it may and must be told

----------------------------------------------------------------------------
V(st, p, w) == [st EXCEPT !.v = @ \cup {<<p, w>>}]
Chk(st, ok, p, w) == IF ok \/ st.cn.mal THEN st ELSE V(st, p, w)
SMal(st, si) == st.cn.mal \/ (si > 0 /\ st.ss[si].mal)
ChkS(st, si, ok, p, w) == IF ok \/ SMal(st, si) THEN st ELSE V(st, p, w)
\* several properties at once
ChkSet(st, ok, ps, w) == IF ok \/ st.cn.mal THEN st ELSE [st EXCEPT !.v = @ \cup { <<p, w>> : p \in ps }]
ChkSS(st, si, ok, ps, w) == IF ok \/ SMal(st, si) THEN st ELSE [st EXCEPT !.v = @ \cup { <<p, w>> : p \in ps }]
Far(x) == x # NONE /\ (x > 400000000 \/ x < -400000000)
MalC(st) == [st EXCEPT !.cn.mal = TRUE]
\* the peer misbehaved on some session: the endpoint may end the connection
AnyMal(st) == st.cn.mal \/ \E i \in Idx(st.ss) : st.ss[i].mal
Fatal(st, w) == [st EXCEPT !.cn.mal = TRUE, !.cn.fat = TRUE, !.cn.fatw = w, !.cn.fats = 0]
\* input that must end the connection unless the session is ended locally before it is processed
FatalS(st, si, w) == [Fatal(st, w) EXCEPT !.cn.fats = IF st.cn.fat THEN st.cn.fats ELSE si]
MalS(st, si) == [st EXCEPT !.ss[si].mal = TRUE, !.cx = [i \in Idx(@) |-> IF @[i].s = si THEN [@[i] EXCEPT !.opt = TRUE] ELSE @[i]]]

CDead(st) == LET c == st.cn IN c.cin \/ c.cout \/ c.eof \/ c.force \/ c.fat \/ c.lclose \/ c.ioend \/ c.done
SDead(st, si) == CDead(st) \/ LET s == st.ss[si] IN s.ie \/ s.oe \/ s.lend
LDead(st, li) == LET l == st.ls[li] IN SDead(st, l.s) \/ l.id \/ l.od \/ l.lc \/ l.viol # ""
\* certainly dead (once everything has been processed)
SHard(st, si) == CDead(st) \/ st.ss[si].ie
\* a detach that was processed (a session that was ended locally ignores its input)
IdSure(st, l) == l.id /\ (l.idq \/ ~st.ss[l.s].lend)
LHard(st, li) == SHard(st, st.ls[li].s) \/ IdSure(st, st.ls[li])
\* certainly dead when a call is made
SHardC(st, si) == st.cn.deadq \/ st.cn.lclose \/ st.cn.force \/ st.ss[si].ieq
LHardC(st, li) == SHardC(st, st.ls[li].s) \/ st.ls[li].idq
SLive(st, si) == LET s == st.ss[si] IN s.ob /\ s.ib /\ ~SDead(st, si)
LLive(st, li) == LET l == st.ls[li] IN l.oa /\ l.ia /\ SLive(st, l.s) /\ ~LDead(st, li)

\* the reason a failed call on the link must give: known when the peer alone ended exactly one of link, session, connection
Reason(st, li) ==
  LET l == st.ls[li]
      s == st.ss[l.s]
      c == st.cn
  IN IF AnyMal(st) \/ l.lc \/ l.viol # "" \/ ~(l.dr \subseteq {"*"}) \/ s.lend \/ (s.oe /\ ~s.ie) \/ c.lclose \/ c.force \/ c.eof \/ c.svcerr \/ c.fat
        \/ c.ioend \/ c.done THEN <<>>
     ELSE IF l.id /\ ~s.ie /\ ~c.cin THEN <<"LinkDetached", l.derr>>
     ELSE IF ~l.id /\ s.ie /\ ~c.cin THEN <<"SessionEnded", s.ierr>>
     ELSE IF ~l.id /\ ~s.ie /\ c.cin THEN <<"Closed", c.cerr>>
     ELSE <<>>
ReasonOk(st, li, e) == LET r == Reason(st, li) IN r = <<>> \/ r = <<e.x, e.c>>

SByO(st, ch) == Last(st.ss, LAMBDA s : s.ob /\ s.och = ch /\ ~s.oe)
SByI(st, ch) == Last(st.ss, LAMBDA s : s.ib /\ s.ich = ch /\ ~s.ie)
LByO(st, si, h) == Last(st.ls, LAMBDA l : l.s = si /\ l.oa /\ l.oh = h /\ ~l.od)
LByI(st, si, h) == Last(st.ls, LAMBDA l : l.s = si /\ l.ia /\ l.ih = h /\ ~l.id)
ChLimit(st) == Min2(st.cfg.lch, st.cfg.rch)

MarkOptL(st, li) == [st EXCEPT !.cx = [i \in Idx(@) |-> IF @[i].ln = li THEN [@[i] EXCEPT !.opt = TRUE] ELSE @[i]]]
MarkOptS(st, si) == [st EXCEPT !.cx = [i \in Idx(@) |-> IF @[i].s = si THEN [@[i] EXCEPT !.opt = TRUE] ELSE @[i]]]
MarkOptAll(st) == [st EXCEPT !.cx = [i \in Idx(@) |-> [@[i] EXCEPT !.opt = TRUE]]]
PushCx(st, k, ln, s, opt, x) == [st EXCEPT !.cx = Append(@, [k |-> k, ln |-> ln, s |-> s, opt |-> opt \/ (s > 0 /\ st.ss[s].mal), x |-> x])]

----------------------------------------------------------------------------
(* Uid binding                                                              *)
BindS(st, uid, lch, rch) ==
  IF uid < 0 THEN st
  ELSE IF Has(st.su, uid) THEN
    LET s == st.ss[st.su[uid]] IN
    Chk(st, (s.ob => s.och = lch) /\ (s.ib => s.ich = rch), "C13", "session object changed its channels")
  ELSE LET i == Last(st.ss, LAMBDA s : (s.ob => s.och = lch) /\ s.ib /\ s.ich = rch /\ s.uid = -1) IN
    IF i = 0 THEN Chk(st, CDead(st), "C13", "session object does not correspond to an open session")
    ELSE [st EXCEPT !.su = Put(@, uid, i), !.ss[i].uid = uid]
BindL(st, uid, li) == [st EXCEPT !.lu = Put(@, uid, li), !.ls[li].uid = uid]
\* a link object first seen in a control event: a local link the peer has answered
\* (its attach call has not returned yet, or was cancelled)
BindCtl(st, e, si) ==
  IF e.ln < 0 \/ Has(st.lu, e.ln) \/ si = 0 THEN st
  ELSE LET i == Last(st.ls, LAMBDA l : /\ l.s = si /\ l.loc /\ l.role = e.role /\ l.nm = e.name
                                       /\ (l.oa => l.oh = e.lh) /\ l.ia /\ l.uid = -1) IN
       IF i = 0 THEN st ELSE BindL(st, e.ln, i)
SOf(st, uid) == Get(st.su, uid, 0)
LOf(st, uid) == Get(st.lu, uid, 0)

----------------------------------------------------------------------------
(* Frames from the endpoint                                                 *)
OutBegin(st, e) ==
  LET inuse == \E i \in Idx(st.ss) : LET s == st.ss[i] IN s.ob /\ s.och = e.ch /\ ~(s.oe /\ s.ie)
      s1 == Chk(st, e.ch <= ChLimit(st), "C15", "begin on a channel above the limit")
      s2 == Chk(s1, ~inuse, "C13", "begin on a channel that is still in use")
      pend == Cardinality({o \in DOMAIN st.ops : st.ops[o].k = "begin" /\ ~st.ops[o].sent})
  IN IF e.rch < 0 THEN
       LET o == IF pend = 0 THEN 0 ELSE SetMin({o \in DOMAIN st.ops : st.ops[o].k = "begin" /\ ~st.ops[o].sent})
           s3 == Chk(s2, pend > 0, "C13", "begin nobody asked for")
           s4 == IF pend > 0 THEN [s3 EXCEPT !.ops[o].sent = TRUE, !.ops[o].ch = e.ch] ELSE s3
       IN [s4 EXCEPT !.ss = Append(@, [NewSess EXCEPT !.och = e.ch, !.ob = TRUE, !.loc = TRUE, !.onoi = e.noi])]
     ELSE
       LET i == Last(st.ss, LAMBDA s : s.ib /\ ~s.loc /\ s.ich = e.rch /\ ~s.ob)
       IN IF i = 0 THEN Chk(s2, FALSE, "C13", "begin answers no begin")
          ELSE [s2 EXCEPT !.ss[i].ob = TRUE, !.ss[i].och = e.ch, !.ss[i].onoi = e.noi,
                          !.ss[i].wlast = IF s2.ss[i].wl = {} THEN e.noi + s2.ss[i].iw ELSE @,
                          !.ss[i].wl = IF @ = {} THEN {e.noi + s2.ss[i].iw} ELSE @]

OutEnd(st, e) ==
  LET i == SByO(st, e.ch) IN
  IF i = 0 THEN Chk(st, FALSE, "C13", "end on a channel that is not open")
  ELSE LET s == st.ss[i]
           s1 == ChkS(st, i, s.ie \/ s.lend \/ CDead(st), "C13", "end without a cause") IN
       [s1 EXCEPT !.ss[i].oe = TRUE]

OutAttach(st, e) ==
  LET si == SByO(st, e.ch) IN
  IF si = 0 THEN Chk(st, FALSE, "C13", "attach on a channel that is not open")
  ELSE
  LET rem0 == First(st.ls, LAMBDA l : l.s = si /\ ~l.loc /\ l.ia /\ ~l.oa /\ l.nm = e.name /\ l.role = e.role
                                      /\ l.oh \in {-1, e.h} /\ (l.cs \in {"ok", "err", "hok"} \/ l.id \/ l.lc))
      rem1 == First(st.ls, LAMBDA l : l.s = si /\ ~l.loc /\ l.ia /\ ~l.oa /\ l.nm = e.name /\ l.role = e.role)
      own == First(st.ls, LAMBDA l : l.s = si /\ l.loc /\ ~l.oa /\ l.nm = e.name /\ l.role = e.role)
      rem == IF rem0 # 0 \/ own # 0 THEN rem0 ELSE rem1
      dup == \E i \in Idx(st.ls) : LET l == st.ls[i] IN l.s = si /\ l.oa /\ l.oh = e.h /\ ~l.od
      s1 == ChkS(st, si, ~dup, "C12", "attach reuses a handle in use")
      dc0 == IF e.role = "S" /\ e.idc # NONE THEN e.idc ELSE 0
      upd(s, i) == [s EXCEPT !.ls[i].oa = TRUE, !.ls[i].oh = e.h, !.ls[i].dc0 = dc0, !.ls[i].cnt = dc0,
                             !.ls[i].llast = IF s.ls[i].relp THEN @ + dc0 ELSE IF s.ls[i].cred THEN @ ELSE dc0,
                             !.ls[i].lims = IF s.ls[i].relp THEN { x + dc0 : x \in @ } ELSE IF s.ls[i].cred THEN @ ELSE {dc0},
                             !.ls[i].relp = FALSE]
  IN IF rem # 0 THEN
       LET l == st.ls[rem]
           s2 == ChkS(s1, si, l.cs \in {"ok", "err", "hok"} \/ l.id \/ l.lc, "C19", "attach answered before the application decided")
           p == First(s1.ab, LAMBDA x : x = rem)
           s3a == ChkS(s2, si, l.lc \/ \A j \in 1..(p - 1) : st.ls[s1.ab[j]].oa \/ LDead(st, s1.ab[j]), "C19", "attaches answered out of order")
           s3 == ChkS(s3a, si, l.oh \in {-1, e.h}, "C12", "attach carries another handle than the link reports")
       IN upd(s3, rem)
     ELSE IF own # 0 THEN upd(s1, own)
     ELSE ChkS(s1, si, FALSE, "C11", "attach nobody asked for (answered twice, or wrong name or role)")

TLE == "amqp:link:transfer-limit-exceeded"
MSE == "amqp:link:message-size-exceeded"
OutDetach(st, e) ==
  LET si == SByO(st, e.ch)
      li == IF si = 0 THEN 0 ELSE LByO(st, si, e.h)
  IN IF si = 0 THEN Chk(st, FALSE, "C13", "detach on a channel that is not open")
     ELSE IF li = 0 THEN ChkS(st, si, FALSE, "C11", "detach of a handle that is not attached")
     ELSE
     LET l == st.ls[li]
         free == "*" \in l.dr \/ CDead(st)
         s1 == ChkS(st, si, l.dr # {} \/ free \/ e.err \notin {TLE, MSE}, "C06", "a delivery within the limits was refused")
         s2 == ChkS(s1, si, l.dr # {} \/ free \/ e.err \in {TLE, MSE}, "C11", "detach without a cause")
         s3 == ChkS(s2, si, l.viol = "" \/ free \/ e.err \in l.dr, "C06", "limit violation not signalled with its error")
         s4 == ChkS(s3, si, l.viol # "" \/ l.dr = {} \/ free \/ e.err \in l.dr \/ ("!" \in l.dr /\ e.err # "")
                        \/ ("hnd!" \in l.dr /\ Starts(e.err, "amqp:link:detach-forced")),
                    IF l.cs = "err" THEN "C19" ELSE "C11", "detach carries the wrong error")
         s5 == ChkS(s4, si, e.closed \/ l.dby, "C11", "detach of a closed link does not close it")
     IN [s5 EXCEPT !.ls[li].od = TRUE, !.ls[li].cur = NoPart]

\* ---- transfers
OutTransfer(st, e) ==
  LET si == SByO(st, e.ch)
      li == IF si = 0 THEN 0 ELSE LByO(st, si, e.h)
  IN IF si = 0 THEN Chk(st, FALSE, "C13", "transfer on a channel that is not open")
     ELSE IF li = 0 \/ st.ls[IF li = 0 THEN 1 ELSE li].role # "S"
          THEN ChkS(st, si, FALSE, "C11", "transfer on a link that is not attached")
     ELSE
     LET s == st.ss[si]
         l == st.ls[li]
         nid == s.onoi + s.tx
         s1 == ChkS(st, si, \E w \in s.wl : nid < w, "C02", "transfer beyond the session window")
         s2 == ChkS(s1, si, e.sz <= st.cfg.rmfs, "C04", "frame larger than the peer's max-frame-size")
         s3 == [s2 EXCEPT !.ss[si].tx = @ + 1]
     IN IF l.cur.on THEN
          LET c == l.cur
              t1 == ChkS(s3, si, e.did = NONE \/ e.did = c.did, "C03", "another delivery starts inside an unfinished one")
              t2 == ChkS(t1, si, ~e.hastag \/ e.tag = c.tag, "C03", "tag changes within a delivery")
              full == [c EXCEPT !.body = Cat(@, e.body), !.blen = @ + e.blen]
          IN IF e.ab THEN [t2 EXCEPT !.ls[li].cur = NoPart]
             ELSE IF e.more THEN [t2 EXCEPT !.ls[li].cur = full]
             ELSE [t2 EXCEPT !.ls[li].cur = NoPart,
                   !.wd = @ \cup {[ln |-> li, s |-> si, did |-> c.did, tag |-> c.tag, fmt |-> c.fmt, st |-> c.st, body |-> full.body, blen |-> full.blen]}]
        ELSE
          LET t1 == ChkS(s3, si, e.did # NONE /\ e.hastag, "C03", "first frame without delivery id or tag")
              t2 == ChkS(t1, si, e.did = NONE \/ e.did > s.did, "C03", "delivery ids do not increase")
              t3 == ChkS(t2, si, \E x \in l.lims : x > l.cnt, "C01", "delivery without link credit")
              t4 == ChkS(t3, si, l.ia, "C11", "transfer before the link is attached")
              t5 == [t4 EXCEPT !.ss[si].did = IF e.did = NONE THEN @ ELSE e.did, !.ls[li].cnt = @ + 1]
              t6 == IF e.st \/ e.did = NONE THEN t5
                    ELSE [t5 EXCEPT !.sd = Put(@, <<si, e.did>>, [ln |-> li, tag |-> e.tag, gen |-> FALSE, lat |-> "", latq |-> "", ps |-> {}, setl |-> 0, loc |-> FALSE, lset |-> FALSE])]
              c == [NoPart EXCEPT !.on = TRUE, !.did = e.did, !.tag = e.tag, !.fmt = e.fmt, !.st = e.st, !.body = e.body, !.blen = e.blen]
          IN IF e.more THEN [t6 EXCEPT !.ls[li].cur = c]
             ELSE [t6 EXCEPT !.wd = @ \cup {[ln |-> li, s |-> si, did |-> c.did, tag |-> c.tag, fmt |-> c.fmt, st |-> c.st, body |-> c.body, blen |-> c.blen]}]

\* ---- flows sent by the endpoint
OutFlow(st, e) ==
  LET si == SByO(st, e.ch) IN
  IF si = 0 THEN Chk(st, FALSE, "C13", "flow on a channel that is not open")
  ELSE
  LET s == st.ss[si]
      s1 == ChkS(st, si, e.noi = s.onoi + s.tx, "C24", "flow announces a wrong next-outgoing-id")
      s2a == ChkS(s1, si, ~s.ib \/ (e.nii # NONE /\ e.nii >= s.inoi + s.rxq /\ e.nii <= s.inoi + s.rx), "C24", "flow announces a wrong next-incoming-id")
      s2b == ChkS(s2a, si, ~e.echo, "C24", "flow asks for an answer although nothing is waiting for one")
      s2 == [s2b EXCEPT !.ss[si].echo = FALSE]
  IN IF e.h < 0 THEN s2
     ELSE
     LET li == LByO(st, si, e.h) IN
     IF li = 0 THEN ChkS(s2, si, FALSE, "C11", "flow for a link that is not attached")
     ELSE
     LET l == st.ls[li] IN
     IF l.role # "R" \/ e.cr < 0 THEN s2
     ELSE
     LET t == e.dc + e.cr
         router == st.cfg.pub = "router"
         imps == IF ~l.loc /\ ~l.imp THEN {0, 50} ELSE {0}
         okp == { <<p, i>> \in Prefixes(l.gq) \X imps : t = l.gseen + SumSeq(p) + i }
         pick == CHOOSE x \in okp : \A y \in okp : Len(y[1]) <= Len(x[1])
         s3 == ChkS(s2, si, e.dc # NONE /\ e.dc >= l.gotq /\ e.dc <= l.got, "C24", "flow announces a wrong delivery-count")
         s4 == ChkS(s3, si, okp # {} \/ (router /\ t >= l.gseen), "C24", "delivery-count plus credit is not the total granted")
     IN IF okp # {} THEN [s4 EXCEPT !.ls[li].gseen = t, !.ls[li].gq = DropN(@, Len(pick[1])),
                                    !.ls[li].imp = @ \/ pick[2] = 50]
        ELSE [s4 EXCEPT !.ls[li].gseen = Max2(@, t), !.ls[li].imp = TRUE, !.ls[li].gq = <<>>]

\* ---- dispositions sent by the endpoint
OutDisp(st, e) ==
  LET si == SByO(st, e.ch) IN
  IF si = 0 THEN Chk(st, FALSE, "C13", "disposition on a channel that is not open")
  ELSE
  LET hi == IF e.last = NONE THEN e.first ELSE e.last
  IN IF e.role = "R" THEN
       LET ks == { k \in DOMAIN st.rd : k[1] = si /\ k[2] >= e.first /\ k[2] <= hi }
           s1 == ChkS(st, si, { k[2] : k \in ks } = e.first..hi, "C08", "disposition for an unknown delivery")
           one(s, k) ==
             LET r == s.rd[k]
                 a1 == ChkS(s, si, ~r.st0, "C08", "disposition for a delivery the peer sent settled")
                 a2 == ChkS(a1, si, r.ps # 2, "C08", "disposition for a delivery the peer had settled")
             IN IF e.st THEN
                  LET a3 == ChkS(a2, si, ~r.nset, "C08", "delivery settled twice")
                      a4 == ChkS(a3, si, \/ r.nset
                                         \/ r.want = e.state
                                         \/ r.want = "*rej" /\ e.sk = "rej"
                                         \/ r.want = "" /\ e.sk = "rej" /\ r.opt,
                                 "C08", "disposition does not carry the application's outcome")
                  IN [a4 EXCEPT !.rd[k].nset = TRUE]
                ELSE
                  LET a3 == ChkS(a2, si, ~r.nset, "C08", "state update after settlement")
                      i == First(r.upds, LAMBDA x : x = e.state)
                      a4 == ChkS(a3, si, r.nset \/ i # 0, "C08", "state update the application did not make")
                  IN [a4 EXCEPT !.rd[k].upds = IF i = 0 THEN @ ELSE RemoveAt(@, i)]
       IN FoldSet2(one, s1, ks)
     ELSE
       LET ks == { k \in DOMAIN st.sd : k[1] = si /\ k[2] >= e.first /\ k[2] <= hi }
           s1 == ChkS(st, si, { k[2] : k \in ks } = e.first..hi, "C07", "disposition for a delivery that was never sent unsettled")
           one(s, k) ==
             LET r == s.sd[k]
                 a1 == ChkS(s, si, r.setl # 2, "C07", "settles a delivery the peer had already settled")
                 a2 == ChkS(a1, si, ~(e.st /\ r.loc), "C07", "settles a sent delivery twice")
             IN [a2 EXCEPT !.sd[k].loc = @ \/ e.st]
       IN FoldSet2(one, s1, ks)

OutClose(st, e) ==
  LET s1 == Chk(st, ~st.cn.cout, "C14", "close sent twice")
      s2 == Chk(s1, st.cn.cin \/ st.cn.lclose \/ st.cn.fat \/ st.cn.svcerr \/ st.cn.eof \/ st.cn.force \/ AnyMal(st), "C14", "close without a cause")
      s3 == Chk(s2, ~st.cn.lclose \/ st.cn.cin \/ st.cn.lerr = {} \/ e.err \in st.cn.lerr, "C14", "close carries the wrong error")
  IN [s3 EXCEPT !.cn.cout = TRUE]

OutEv(st, e) ==
  IF e.f = "bad" THEN V(st, "C22", "the endpoint wrote an undecodable frame")
  ELSE
  LET s1 == IF e.f = "open" /\ ~st.cn.opened THEN st
            ELSE Chk(st, ~st.cn.cout \/ e.f = "close", "C14", "frame sent after close")
      s2 == IF e.f = "open" THEN [Chk(s1, ~st.cn.opened, "C16", "open sent twice") EXCEPT !.cn.opened = TRUE]
            ELSE IF e.f = "transfer" THEN s1
            ELSE Chk(s1, e.sz <= Max2(512, st.cfg.rmfs), "C04", "frame larger than the peer's max-frame-size")
  IN CASE e.f = "begin"    -> OutBegin(s2, e)
       [] e.f = "end"      -> OutEnd(s2, e)
       [] e.f = "attach"   -> OutAttach(s2, e)
       [] e.f = "detach"   -> OutDetach(s2, e)
       [] e.f = "transfer" -> OutTransfer(s2, e)
       [] e.f = "flow"     -> OutFlow(s2, e)
       [] e.f = "disp"     -> OutDisp(s2, e)
       [] e.f = "close"    -> OutClose(s2, e)
       [] e.f = "empty"    -> Chk(s2, FALSE, "C20", "keep-alive frame although the peer announced no idle timeout")
       [] OTHER            -> s2

----------------------------------------------------------------------------
(* Frames from the peer                                                     *)
Flip(r) == IF r = "S" THEN "R" ELSE "S"

InBegin(st, e) ==
  IF SByI(st, e.ch) # 0 THEN MalC(st)
  ELSE IF e.rch >= 0 THEN
    LET i == Last(st.ss, LAMBDA s : s.loc /\ s.ob /\ s.och = e.rch /\ ~s.ib /\ ~s.ie) IN
    IF i = 0 THEN MalC(st)
    ELSE [st EXCEPT !.ss[i].ib = TRUE, !.ss[i].ich = e.ch, !.ss[i].iw = e.iw, !.ss[i].inoi = e.noi,
                    !.ss[i].wl = {st.ss[i].onoi + e.iw}, !.ss[i].wlast = st.ss[i].onoi + e.iw]
  ELSE
    LET used == Cardinality({ i \in Idx(st.ss) : LET s == st.ss[i] IN ~s.ie })
                + Cardinality({ o \in DOMAIN st.ops : st.ops[o].k = "begin" /\ ~st.ops[o].sent })
        full == used > ChLimit(st) \/ e.ch > st.cfg.lch
        s1 == [st EXCEPT !.ss = Append(@, [NewSess EXCEPT !.ich = e.ch, !.ib = TRUE, !.iw = e.iw, !.inoi = e.noi, !.full = full])]
    IN IF full THEN MalC(s1) ELSE s1

InEnd(st, e) ==
  LET i == SByI(st, e.ch) IN
  IF i = 0 THEN Fatal(st, "end on an unknown channel")
  ELSE LET s == st.ss[i]
           s1 == PushCx(st, "RemoteSessionEnded", 0, i, s.lend, 0)
       IN [s1 EXCEPT !.ss[i].ie = TRUE, !.ss[i].ierr = IF s.ie THEN @ ELSE e.err]

InAttach(st, e) ==
  LET si == SByI(st, e.ch) IN
  IF si = 0 THEN Fatal(st, "attach on an unknown channel")
  ELSE IF st.ss[si].lend \/ st.ss[si].oe THEN st
  ELSE
  LET role == Flip(e.role)
      dup == \E i \in Idx(st.ls) : LET l == st.ls[i] IN l.s = si /\ l.ia /\ ~l.id /\ l.ih = e.h
      own == First(st.ls, LAMBDA l : l.s = si /\ l.loc /\ ~l.ia /\ ~l.id /\ l.nm = e.name /\ l.role = role)
      clash == \E i \in Idx(st.ls) : LET l == st.ls[i] IN
                  l.s = si /\ l.nm = e.name /\ l.role = role /\ ~(l.od /\ l.id) /\ (l.ia \/ l.oa)
      mms == IF e.mms > 0 THEN {e.mms} ELSE {0}
      idc == IF e.idc = NONE THEN 0 ELSE e.idc
  IN IF dup THEN MalS(st, si)
     ELSE IF own # 0 THEN
       LET l == st.ls[own]
           s1 == [st EXCEPT !.ls[own].ia = TRUE, !.ls[own].ih = e.h,
                            !.ls[own].refused = IF role = "S" THEN ~e.hastgt ELSE ~e.hassrc]
       IN IF role = "S" THEN [s1 EXCEPT !.ls[own].mms = IF l.mms = {} THEN mms ELSE @]
          ELSE [s1 EXCEPT !.ls[own].gseen = idc, !.ls[own].got = idc, !.ls[own].gotc = idc, !.ls[own].gotq = idc]
     ELSE IF clash THEN MalS(st, si)
     ELSE
       LET nl == [NewLink EXCEPT !.s = si, !.nm = e.name, !.role = role, !.ia = TRUE, !.ih = e.h, !.cs = "wait",
                                 !.mms = mms, !.tseg = e.tseg, !.hastgt = e.hastgt, !.src = e.src,
                                 !.gseen = idc, !.got = idc, !.gotc = idc, !.gotq = idc]
           s1 == [st EXCEPT !.ls = Append(@, nl)]
       IN PushCx(s1, IF role = "S" THEN "AttachSender" ELSE "AttachReceiver", Len(s1.ls), si, FALSE, 0)

InDetach(st, e) ==
  LET si == SByI(st, e.ch) IN
  IF si = 0 THEN Fatal(st, "detach on an unknown channel")
  ELSE IF st.ss[si].lend \/ st.ss[si].oe THEN st
  ELSE
  LET li == LByI(st, si, e.h) IN
  IF li = 0 THEN MalS(st, si)
  ELSE
  LET l == st.ls[li]
      k == IF l.role = "S" THEN "RemoteDetachSender" ELSE "RemoteDetachReceiver"
      s1 == [st EXCEPT !.ls[li].id = TRUE, !.ls[li].dr = @ \cup {"*"}, !.ls[li].part = NoPart, !.ls[li].derr = IF l.id THEN @ ELSE e.err]
  IN PushCx(s1, k, li, si, l.lc \/ l.od \/ l.viol # "" \/ ~l.oa \/ l.uid = -1 \/ l.dr # {}, e.err)

InFlow(st, e) ==
  LET si == SByI(st, e.ch) IN
  IF si = 0 THEN Fatal(st, "flow on an unknown channel")
  ELSE IF st.ss[si].lend \/ st.ss[si].oe THEN st
  ELSE
  LET s == st.ss[si]
      base == IF e.nii = NONE THEN s.onoi ELSE e.nii
      w == base + e.iw
      bad == e.nii # NONE /\ (e.nii > s.onoi + s.tx \/ e.nii < s.onoi)
      s1 == [st EXCEPT !.ss[si].wl = @ \cup {w}, !.ss[si].wlast = w, !.ss[si].echo = @ \/ e.echo]
      s2 == IF bad \/ (e.noi # NONE /\ e.noi # s.inoi + s.rx) THEN MalS(s1, si) ELSE s1
  IN IF e.h < 0 THEN s2
     ELSE
     LET li == LByI(st, si, e.h) IN
     IF li = 0 THEN MalS(s2, si)
     ELSE
     LET l == st.ls[li]
         badl == e.dc # NONE /\ l.oa /\ (e.dc > l.cnt \/ e.dc < l.dc0)
         s3 == IF badl THEN MalS(s2, si) ELSE s2
     IN IF l.role # "S" THEN s3
        ELSE PushCx(s3, "Flow", li, si, ~l.oa \/ l.lc \/ l.od \/ l.viol # "" \/ l.dr # {},
                    [has |-> e.cr >= 0, cr |-> e.cr, rel |-> e.dc = NONE, lim |-> IF e.dc = NONE THEN e.cr ELSE e.dc + e.cr])

\* ---- transfers
InTransfer(st, e) ==
  LET si == SByI(st, e.ch) IN
  IF si = 0 THEN Fatal(st, "transfer on an unknown channel")
  ELSE IF st.ss[si].lend \/ st.ss[si].oe THEN st
  ELSE
  LET li == LByI(st, si, e.h) IN
  IF li = 0 THEN IF st.ss[si].mal THEN st ELSE FatalS(st, si, "transfer for an unknown link")
  ELSE IF st.ss[si].mal /\ (st.ls[li].role # "R" \/ ~st.ls[li].oa) THEN st
  ELSE IF st.ls[li].role # "R" THEN FatalS(st, si, "transfer from the wrong side")
  ELSE IF ~st.ls[li].oa /\ ~st.ls[li].loc THEN FatalS(st, si, "transfer before attach")
  ELSE
  LET l == st.ls[li]
      s0 == [st EXCEPT !.ss[si].rx = @ + 1]
  IN IF LDead(st, li) THEN s0
     ELSE IF l.part.on /\ e.did # NONE /\ e.did # l.part.did THEN MalS(s0, si)
     ELSE IF ~l.part.on /\ e.did = NONE THEN MalS(s0, si)
     ELSE
     LET first == ~l.part.on
         gmax == l.gseen + SumSeq(l.gq) + (IF ~l.loc /\ ~l.imp THEN 50 ELSE 0)
                   + (IF st.cfg.pub = "router" THEN 100000 ELSE 0)
         overM == first /\ l.got >= gmax
         overP == first /\ l.got >= l.gseen
         p == IF first THEN [NoPart EXCEPT !.on = TRUE, !.did = e.did, !.tag = e.tag, !.fmt = e.fmt, !.st = e.st]
              ELSE l.part
         tot == p.blen + e.blen
         bigs == { m \in l.mmx : m # 0 /\ tot > m }
     IN IF overM THEN [s0 EXCEPT !.ls[li].viol = TLE, !.ls[li].dr = @ \cup {TLE}]
        ELSE IF e.ab THEN
          [s0 EXCEPT !.ls[li].part = NoPart, !.ls[li].gotc = @ + 1, !.ls[li].mtc = @ + 1,
                     !.ls[li].got = @ + (IF first THEN 1 ELSE 0)]
        ELSE IF bigs # {} /\ bigs = l.mmx /\ ~overP THEN
          [s0 EXCEPT !.ls[li].viol = MSE, !.ls[li].dr = @ \cup {MSE}, !.ls[li].part = NoPart]
        ELSE
        LET opt == p.opt \/ overP \/ bigs # {}
            p2 == [p EXCEPT !.body = Cat(@, e.body), !.blen = tot, !.opt = opt, !.st = @ \/ e.st]
            s1 == [s0 EXCEPT !.ls[li].got = @ + (IF first THEN 1 ELSE 0),
                             !.ls[li].dr = @ \cup (IF overP THEN {TLE} ELSE {}) \cup (IF bigs # {} THEN {MSE} ELSE {})]
        IN IF e.more THEN [s1 EXCEPT !.ls[li].part = p2]
           ELSE [s1 EXCEPT !.ls[li].part = NoPart, !.ls[li].gotc = @ + 1, !.ls[li].mtc = @ + 1, !.ls[li].mtn = @ + (IF opt THEN 0 ELSE 1),
                   !.ls[li].q = Append(@, [did |-> p2.did, tag |-> p2.tag, st |-> p2.st, fmt |-> p2.fmt,
                                           body |-> p2.body, blen |-> p2.blen, opt |-> opt]),
                   !.rd = Put(@, <<si, p2.did>>, [ln |-> li, st0 |-> p2.st, ps |-> p2.ps, ss |-> p2.ss, ssq |-> {}, want |-> "", nset |-> FALSE,
                                                  upds |-> <<>>, opt |-> TRUE, hnd |-> FALSE])]

InDisp(st, e) ==
  LET si == SByI(st, e.ch) IN
  IF si = 0 THEN Fatal(st, "disposition on an unknown channel")
  ELSE IF st.ss[si].lend \/ st.ss[si].oe THEN st
  ELSE
  LET hi == IF e.last = NONE THEN e.first ELSE e.last
  IN IF e.role = "R" THEN
       LET ks == { k \in DOMAIN st.sd : k[1] = si /\ k[2] >= e.first /\ k[2] <= hi }
       IN IF hi > st.ss[si].did THEN MalS(st, si) ELSE
          [st EXCEPT !.sd = [k \in DOMAIN @ |->
             IF k \notin ks THEN @[k]
             ELSE [@[k] EXCEPT !.ps = @ \cup (IF e.state # "none" THEN {e.state} ELSE IF e.st THEN {"none"} ELSE {}),
                               !.lat = IF e.state # "none" THEN e.state ELSE IF e.st /\ @ = "" THEN "none" ELSE @,
                               !.setl = IF e.st /\ @ = 0 THEN 1 ELSE @]]]
     ELSE
       LET ks == { k \in DOMAIN st.rd : k[1] = si /\ k[2] >= e.first /\ k[2] <= hi }
           news == IF e.state # "none" THEN {e.state} ELSE {}
           inpart(l) == l.s = si /\ l.part.on /\ l.part.did >= e.first /\ l.part.did <= hi
       IN [st EXCEPT !.rd = [k \in DOMAIN @ |-> IF k \in ks THEN [@[k] EXCEPT !.ps = IF e.st /\ @ = 0 THEN 1 ELSE @, !.ss = @ \cup news] ELSE @[k]],
                     !.ls = [i \in Idx(@) |-> IF inpart(@[i]) THEN [@[i] EXCEPT !.part.ps = IF e.st THEN 1 ELSE @, !.part.ss = @ \cup news] ELSE @[i]]]

InClose(st, e) ==
  LET c == st.cn
      s1 == PushCx(st, "ProtocolError", 0, 0, CDead(st), e.err)
  IN [s1 EXCEPT !.cn.cin = TRUE, !.cn.cerr = IF c.cin THEN @ ELSE e.err]

FarFrame(e) ==
  CASE e.f = "begin" -> Far(e.noi)
    [] e.f = "attach" -> Far(e.idc)
    [] e.f = "flow" -> Far(e.nii) \/ Far(e.noi) \/ Far(e.dc)
    [] e.f = "transfer" -> Far(e.did)
    [] e.f = "disp" -> Far(e.first) \/ Far(e.last) \/ (e.last # NONE /\ e.last - e.first > 1000)
    [] OTHER -> FALSE
InEv(st, e) ==
  IF ~CDead(st) /\ ~st.cn.mal /\ (FarFrame(e) \/ Fld(e, "sz", 0) > st.cfg.lmfs) THEN MalC(st)
  ELSE IF CDead(st) \/ st.cn.mal THEN
    IF e.f = "close" THEN [st EXCEPT !.cn.cin = TRUE]
    ELSE IF e.f = "bad" THEN [st EXCEPT !.cn.mal = TRUE] ELSE st
  ELSE CASE e.f = "begin"    -> InBegin(st, e)
         [] e.f = "end"      -> InEnd(st, e)
         [] e.f = "attach"   -> InAttach(st, e)
         [] e.f = "detach"   -> InDetach(st, e)
         [] e.f = "transfer" -> InTransfer(st, e)
         [] e.f = "flow"     -> InFlow(st, e)
         [] e.f = "disp"     -> InDisp(st, e)
         [] e.f = "close"    -> InClose(st, e)
         [] e.f = "bad"      -> Fatal(st, "input that cannot be parsed")
         [] e.f = "empty"    -> st
         [] OTHER            -> MalC(st)

----------------------------------------------------------------------------
(* Application calls                                                        *)
NewOp(e, ln, s) == [k |-> e.k, ln |-> ln, s |-> s, sent |-> FALSE, ch |-> -1, due |-> FALSE, key |-> <<>>,
                    dead |-> FALSE, byh |-> FALSE, len |-> FALSE, e |-> e]
AddOp(st, e, o) == [st EXCEPT !.ops = Put(@, e.op, o)]
\* a receive has a single waiter per link: an older one is no longer woken
Supersede(st, e, ln) == [st EXCEPT !.ops = [p \in DOMAIN @ |->
   IF p # e.op /\ @[p].k = "recv" /\ @[p].ln = ln THEN [@[p] EXCEPT !.len = TRUE] ELSE @[p]]]

\* messages that may not have been processed when their link is closed locally
UnL(l) == [l EXCEPT !.part.opt = TRUE, !.q = [i \in Idx(@) |-> IF i > l.qn THEN [@[i] EXCEPT !.opt = TRUE] ELSE @[i]]]
MayLose(st, P(_)) == [st EXCEPT !.ls = [i \in Idx(@) |-> IF P(i) THEN UnL(@[i]) ELSE @[i]]]

CallEv(st, e) ==
  LET ln == LOf(st, Fld(e, "ln", -1))
      si == IF ln # 0 THEN st.ls[ln].s ELSE SOf(st, Fld(e, "s", -1))
      o == [NewOp(e, ln, si) EXCEPT !.dead = IF ln # 0 THEN LHardC(st, ln) ELSE IF si # 0 THEN SHardC(st, si) ELSE FALSE]
      st1 == AddOp(st, e, o)
      k == e.k
  IN CASE k = "send" ->
            IF ln = 0 THEN st1
            ELSE [st1 EXCEPT !.sn = Put(@, e.op, [ln |-> ln, st |-> e.st, fmt |-> e.fmt, tag |-> e.tag, body |-> e.body,
                              blen |-> e.blen, stt |-> "pend", did |-> 0, tagr |-> "", floor |-> st.ls[ln].dmax,
                              mms |-> st.ls[ln].mms])]
       [] k = "begin" ->
            \* crosses with a begin of the peer: too few channels for both
            LET used == Cardinality({ i \in Idx(st.ss) : LET s == st.ss[i] IN ~(s.ieq /\ s.oe) })
                        + Cardinality({ p \in DOMAIN st.ops : st.ops[p].k = "begin" /\ ~st.ops[p].sent })
            IN IF used > ChLimit(st) /\ \E i \in Idx(st.ss) : LET s == st.ss[i] IN s.ib /\ ~s.loc /\ ~s.ob THEN MalC(st1) ELSE st1
       [] k = "att" ->
            IF si = 0 THEN st1
            ELSE LET clash == \E i \in Idx(st.ls) : LET l == st.ls[i] IN l.s = si /\ l.nm = e.name /\ l.role = e.role
                                       /\ ((l.loc /\ ~l.ia /\ ~l.id /\ l.cs = "loc")
                                           \* crosses with an attach of the peer for the same name: either may be taken for its answer
                                           \/ (~l.loc /\ l.ia /\ ~l.oa /\ l.uid = -1))
                     st2 == IF clash THEN MalS(st1, si) ELSE st1 IN
                 [st2 EXCEPT !.ls = Append(@, [NewLink EXCEPT !.s = si, !.nm = e.name, !.role = e.role, !.loc = TRUE, !.op = e.op,
                              !.mmx = IF e.role = "R" /\ e.mms >= 0 THEN {e.mms} ELSE {262144},
                              !.mlast = IF e.role = "R" /\ e.mms >= 0 THEN e.mms ELSE 262144,
                              !.cs = IF o.dead \/ SDead(st, si) THEN "dead" ELSE "loc"]),
                             !.ops[e.op].ln = Len(st.ls) + 1]
       [] k = "setmax" ->
            IF ln = 0 THEN st1
            ELSE IF st.ls[ln].role = "S" THEN [st1 EXCEPT !.ls[ln].mms = @ \cup {e.n}, !.ops[e.op].ch = e.n]
            ELSE LET s1 == [st1 EXCEPT !.ls[ln].mmx = @ \cup {e.n}, !.ls[ln].mlast = e.n, !.ops[e.op].ch = e.n] IN
                 \* frames not yet processed may be judged by the new limit
                 IF st.ss[si].rx = st.ss[si].rxq THEN s1
                 ELSE MalS(s1, si)
       [] k = "credit" ->
            IF ln = 0 THEN st1
            ELSE LET s1 == [st1 EXCEPT !.ls[ln].gq = Append(@, e.n)] IN
                 \* a delivery not yet processed may be judged by the new credit
                 IF st.ls[ln].viol = TLE /\ ~st.ls[ln].od /\ st.ss[si].rx # st.ss[si].rxq THEN MalS(s1, si) ELSE s1
       [] k \in {"wait", "rstate"} ->
            [st1 EXCEPT !.ops[e.op].key = Get(st.ad, e.d, <<>>), !.ops[e.op].ch = e.d]
       [] k \in {"rwait", "rpeek"} ->
            [st1 EXCEPT !.ops[e.op].key = Get(st.ar, e.d, <<>>), !.ops[e.op].ch = e.d]
       [] k = "settle" ->
            IF Has(st.ad, e.d) /\ Has(st.sd, st.ad[e.d]) THEN [st1 EXCEPT !.sd[st.ad[e.d]].lset = TRUE]
            ELSE IF ~Has(st.ar, e.d) THEN st1
            ELSE LET key == st.ar[e.d] IN
              IF ~Has(st.rd, key) THEN st1
              ELSE [st1 EXCEPT !.rd[key].want = IF @ = "" THEN e.state ELSE @]
       [] k = "upd" ->
            IF ~Has(st.ar, e.d) THEN st1
            ELSE LET key == st.ar[e.d] IN
              IF ~Has(st.rd, key) THEN st1
              ELSE IF st.rd[key].want # "" THEN st1
              ELSE [st1 EXCEPT !.rd[key].upds = Append(@, e.state)]
       [] k = "drop" ->
            IF ~Has(st.ar, e.d) THEN st1
            ELSE LET key == st.ar[e.d]
                     s1 == [st1 EXCEPT !.ar = Del(@, e.d)] IN
              IF ~Has(st.rd, key) THEN s1
              ELSE [s1 EXCEPT !.rd[key].want = IF @ = "" THEN "*rej" ELSE @]
       [] k = "closel" ->
            IF ln = 0 THEN st1
            ELSE LET s1 == MayLose(MarkOptL(st1, ln), LAMBDA i : i = ln) IN
                 [s1 EXCEPT !.ls[ln].lc = TRUE, !.ls[ln].dr = @ \cup {e.err},
                            !.cn.lcn = @ + 1,
                            !.ls[ln].lcn = IF LLive(st, ln) /\ st.ls[ln].dr = {} THEN st1.cn.lcn + 1 ELSE @,
                            \* the close that waits for the peer's detach
                            !.ops[e.op].ch = IF LLive(st, ln) /\ st.ls[ln].dr = {} THEN 0 ELSE -1]
       [] k = "detach" ->
            LET li == IF si = 0 THEN 0 ELSE Last(st.ls, LAMBDA l : l.s = si /\ l.role = e.role /\ l.oh = e.h /\ ~l.od) IN
            IF li = 0 THEN
              \* may hit a link that is being attached
              IF si # 0 /\ \E i \in Idx(st.ls) : LET l == st.ls[i] IN l.s = si /\ l.role = e.role /\ ~l.oa THEN MalS(st1, si) ELSE st1
            ELSE LET s1 == MayLose(MarkOptL(st1, li), LAMBDA i : i = li) IN
                 [s1 EXCEPT !.ls[li].lc = TRUE, !.ls[li].dby = TRUE, !.ls[li].dr = @ \cup {e.err}, !.ops[e.op].ln = li, !.ops[e.op].byh = TRUE]
       [] k = "end" ->
            IF si = 0 THEN st1 ELSE LET s1 == MayLose(MarkOptS(st1, si), LAMBDA i : st.ls[i].s = si) IN
                 [s1 EXCEPT !.ss[si].lend = TRUE, !.ops[e.op].ch = IF SLive(st, si) THEN 0 ELSE -1, !.cn.fat = @ /\ st.cn.fats # si]
       [] k = "close" ->
            LET s1 == MayLose(MarkOptAll(st1), LAMBDA i : TRUE) IN [s1 EXCEPT !.cn.lclose = TRUE, !.cn.lerr = IF CDead(st) THEN {} ELSE {e.err}]
       [] k = "recv" -> IF ln = 0 THEN st1 ELSE Supersede(st1, e, ln)
       [] k = "force" ->
            LET s1 == MayLose(MarkOptAll(st1), LAMBDA i : TRUE) IN [s1 EXCEPT !.cn.force = TRUE]
       [] OTHER -> st1

\* the delivery wait may return state x
\* the only state of a delivery that is not an outcome; a wait that returned it waits for the next one
IsRcv(x) == Starts(x, "rcv")
AnyRcv(S) == \E x \in S : IsRcv(x)
WaitOk(st, key, x, rs) ==
  LET d == st.sd[key] IN x \in d.ps \/ (x = "none" /\ AnyRcv(d.ps) /\ d.lat = "") \/ (x = "none" /\ d.setl > 0 /\ (d.ps = {} \/ d.ps = {"none"} \/ IsRcv(d.lat) \/ d.lat = ""))

PopQ(st, li, e, p) ==
  LET l == st.ls[li]
      i == First(l.q, LAMBDA m : m.did = e.did /\ m.body = e.body /\ m.tag = e.tag /\ m.blen = e.blen)
      ok == i # 0 /\ \A j \in 1..(i-1) : l.q[j].opt
      s1 == ChkS(st, l.s, ok, p, "a message that is not the next complete one was handed over")
  IN IF i = 0 THEN s1 ELSE [s1 EXCEPT !.ls[li].q = DropN(@, i), !.ls[li].qn = Max2(0, @ - i)]

\* look and getsess need their arguments: kept with the call
LookRet(st, c, e) ==
  LET si == SOf(st, c.s)
      li == LOf(st, e.ln)
      role == IF c.by \in {"name", "slh", "srh"} THEN "S" ELSE "R"
      fits(l) == /\ l.s = si /\ l.role = role
                 /\ CASE c.by = "name" -> l.nm = c.name \/ l.src = c.name
                      [] c.by \in {"slh", "rlh"} -> l.oh = c.h
                      [] OTHER -> l.ih = c.h
  IN IF si = 0 THEN st
     ELSE IF e.ln >= 0 THEN
       IF li = 0 THEN
         \* a local link whose attach call was cancelled
         LET i == Last(st.ls, LAMBDA l : fits(l) /\ l.loc /\ l.oa /\ l.ia /\ l.uid = -1)
         IN IF i = 0 THEN ChkS(st, si, FALSE, "C12", "lookup returned the wrong link") ELSE BindL(st, e.ln, i)
       ELSE ChkS(st, si, fits(st.ls[li]), "C12", "lookup returned the wrong link")
     ELSE IF c.by = "name" THEN
       \* a link of the application, its name used by no other link of the session, now or before
       LET i == First(st.ls, LAMBDA l : fits(l) /\ l.loc /\ l.nm = c.name)
           other == \E j \in Idx(st.ls) : j # i /\ st.ls[j].s = si /\ (st.ls[j].nm = c.name \/ st.ls[j].src = c.name)
       IN ChkS(st, si, i = 0 \/ other \/ ~LLive(st, i) \/ st.ls[i].uid = -1, "C12", "lookup by name does not find an attached link")
     ELSE ChkS(st, si, ~\E i \in Idx(st.ls) : fits(st.ls[i]) /\ LLive(st, i) /\ st.ls[i].uid # -1 /\ (st.ls[i].loc \/ st.ls[i].cs = "ok"),
               "C12", "lookup does not find an attached link")

RetEv(st, e) ==
  IF ~Has(st.ops, e.op) THEN st
  ELSE
  LET o == st.ops[e.op]
      k == e.k
      ln == o.ln
      si == o.s
      s0 == IF e.r = "panic" THEN V(st, "C23", "a call panicked") ELSE st
      st1 == [s0 EXCEPT !.ops = Del(@, e.op)]
      bad == e.r = "err"
  IN CASE e.r = "panic" -> st1
       [] k = "begin" ->
            IF e.r = "ok" THEN
              LET i == Last(st.ss, LAMBDA s : s.loc /\ s.ob /\ s.och = e.lch /\ s.ib /\ s.ich = e.rch)
                  s1 == Chk(st1, i # 0, "C13", "open completed without the begin that answers it")
                  s2 == Chk(s1, i = 0 \/ ~o.sent \/ o.ch = e.lch \/ TRUE, "C13", "")
              IN BindS(s2, e.s, e.lch, e.rch)
            ELSE
              LET used == Cardinality({ i \in Idx(st.ss) : LET s == st.ss[i] IN ~(s.ieq /\ s.oe) })
                          + Cardinality({ p \in DOMAIN st1.ops : st1.ops[p].k = "begin" /\ ~st1.ops[p].sent })
                  s1 == Chk(st1, ~(e.x = "TooManyChannels") \/ used > ChLimit(st) \/ CDead(st), "C15", "limit reported while a channel is free")
                  s2 == Chk(s1, e.x = "TooManyChannels" \/ CDead(st), "C10", "open failed on a live connection")
                  s3 == Chk(s2, e.x # "TooManyChannels" \/ ~o.sent, "C15", "refused open put a begin on the wire")
              \* a begin may have left before the connection died
              IN IF e.x # "TooManyChannels" /\ ~o.sent THEN [s3 EXCEPT !.ops = Put(@, e.op, [o EXCEPT !.dead = TRUE, !.due = TRUE])] ELSE s3
       [] k = "getsess" ->
            IF e.r = "ok" THEN LET s1 == BindS(st1, e.s, e.lch, e.rch) IN s1
            ELSE st1
       [] k = "att" ->
            IF ln = 0 THEN st1
            ELSE LET l == st.ls[ln] IN
              IF e.r = "ok" THEN
                LET s1 == ChkS(st1, si, l.ia, "C11", "attach completed without the peer's answer")
                    s2 == ChkS(s1, si, e.role = l.role /\ e.name = l.nm /\ e.s = st.ss[si].uid, "C12", "attach completed with another link")
                    s3 == ChkS(s2, si, (l.oa => e.lh = l.oh) /\ (l.ia /\ l.role = "S" => e.rh = l.ih), "C12", "link reports wrong handles")
                IN BindL(s3, e.ln, ln)
              ELSE ChkS(ChkS([st1 EXCEPT !.ls[ln].orphan = TRUE], si, LDead(st, ln), "C11", "attach failed although the peer did not refuse it"),
                        si, Reason(st, ln) = <<>> \/ Reason(st, ln)[1] # "LinkDetached" \/ ReasonOk(st, ln, e), "C10", "a failed attach does not carry the peer's reason")
       [] k = "send" ->
            IF ln = 0 THEN st1
            ELSE LET n == st.sn[e.op]
                     l == st.ls[ln] IN
              IF e.r = "ok" THEN
                LET s1 == ChkS(st1, si, \E m \in n.mms \cup l.mms : m = 0 \/ n.blen <= m, "C06", "a message above the peer's maximum was sent")
                    s2 == ChkS(s1, si, ~o.dead, "C10", "send succeeded on a dead link")
                    s3 == [s2 EXCEPT !.sn[e.op].stt = "ok", !.sn[e.op].did = e.did, !.sn[e.op].tagr = e.tag,
                                     !.ls[ln].dmax = Max2(@, e.did),
                                     !.ad = Put(@, e.op, <<si, e.did>>)]
                IN ChkS(s3, si, e.did > n.floor, "C03", "sends that do not overlap left out of order")
              ELSE
                LET s1 == ChkS(st1, si, e.x # "BodyTooLarge" \/ \E m \in n.mms \cup l.mms : m # 0 /\ n.blen > m,
                               "C06", "a message within the peer's maximum was refused")
                    s2 == ChkS(s1, si, e.x = "BodyTooLarge" \/ LDead(st, ln) \/ l.dr # {}, "C04", "send failed on a live link")
                    s3 == ChkS(s2, si, e.x = "BodyTooLarge" \/ ReasonOk(st, ln, e), "C10", "a failed send does not carry the peer's reason")
                IN [s3 EXCEPT !.sn[e.op].stt = IF e.x = "BodyTooLarge" \/ o.dead THEN "none" ELSE "err"]
       [] k = "ready" ->
            IF ln = 0 THEN st1
            ELSE IF e.r = "ok" THEN ChkS(st1, si, (\E x \in st.ls[ln].lims : x > st.ls[ln].cnt - 1 - Cardinality(DOMAIN st.sn)) /\ ~o.dead,
                                         "C09", "link reported ready without credit")
            ELSE ChkS(st1, si, LDead(st, ln) \/ st.ls[ln].dr # {}, "C09", "link reported closed while open")
       [] k \in {"recv", "getdel"} ->
            IF ln = 0 THEN st1
            ELSE LET l == st.ls[ln] IN
              IF e.r = "ok" THEN
                LET s1 == PopQ(st1, ln, e, "C05")
                    key == <<si, e.did>>
                    s2 == IF Has(st.rd, key)
                          THEN LET a == ChkS(s1, si, st.rd[key].st0 = e.st, "C05", "settled flag lost") IN
                               [a EXCEPT !.rd[key].opt = FALSE]
                          ELSE s1
                IN [s2 EXCEPT !.ar = Put(@, e.op, key)]
              ELSE IF k = "getdel" THEN ChkS(st1, si, l.qn = 0 \/ l.q = <<>> \/ \A i \in 1..l.qn : l.q[i].opt, "C09", "queued message not returned")
              ELSE
                LET s1 == ChkS(st1, si, LDead(st, ln) \/ l.dr # {}, "C05", "receive ended on an open link")
                    s2 == ChkS(s1, si, l.lc \/ l.qn = 0 \/ \A i \in 1..l.qn : l.q[i].opt, "C10", "complete messages lost")
                    r == Reason(st, ln)
                    s3 == ChkS(s2, si, r = <<>> \/ o.len \/
                                 (IF r[1] = "LinkDetached" /\ r[2] # "" /\ ~l.dtold THEN bad /\ <<e.x, e.c>> = r ELSE ~bad),
                               "C10", "a receiver does not report why it ended")
                    s4 == ChkS(s3, si, ~bad \/ (e.x = "LinkDetached" /\ l.id /\ e.c = l.derr /\ l.derr # ""), "C10", "a receiver reports an error the peer did not give")
                IN IF bad THEN [s4 EXCEPT !.ls[ln].dtold = TRUE] ELSE s4
       [] k = "hasdel" ->
            IF ln = 0 THEN st1
            ELSE LET l == st.ls[ln] IN
              IF e.r = "yes" THEN ChkS(st1, si, l.q # <<>>, "C05", "reports a delivery although none is complete")
              ELSE ChkS(st1, si, l.qn = 0 \/ \A i \in 1..l.qn : l.q[i].opt, "C05", "does not report a complete delivery")
       [] k = "wait" ->
            LET key == o.key IN
            IF key = <<>> THEN st1
            ELSE IF ~Has(st.sd, key) THEN
              \* sent settled, or not yet seen on the wire
              ChkS(st1, key[1], e.r = "err" \/ e.state = "none" , "C07", "outcome for a delivery the peer never judged")
            ELSE
            LET d == st.sd[key] IN
              IF e.r = "ok" THEN
                LET s1 == ChkS(st1, key[1], WaitOk(st, key, e.state, e.rs) \/ (e.state = "none" /\ (d.loc \/ d.lset)), "C07", "wait returned a state the peer did not report")
                    s2 == ChkS(s1, key[1], e.rs => d.setl > 0, "C07", "reports a settlement the peer did not make")
                    s3 == ChkS(s2, key[1], d.setl = 2 => e.rs \/ LDead(st, d.ln), "C07", "does not report the peer's settlement")
                IN IF IsRcv(e.state) /\ IsRcv(d.lat) THEN [s3 EXCEPT !.sd[key].lat = ""] ELSE s3
              ELSE LET s1 == ChkS(st1, key[1], LDead(st, d.ln), "C07", "wait failed on a live link")
                       r == Reason(st, d.ln)
                   IN ChkS(s1, key[1], r = <<>> \/ r[1] # "LinkDetached" \/ <<e.x, e.c>> = r, "C10", "a failed wait does not carry the peer's reason")
       [] k = "rstate" ->
            LET key == o.key IN
            IF key = <<>> \/ ~Has(st.sd, key) THEN st1
            ELSE LET d == st.sd[key]
                     s1 == ChkS(st1, key[1], e.state = "none" \/ e.state \in d.ps, "C07", "remote state the peer did not report")
                 IN ChkS(s1, key[1], e.state # "none" \/ d.latq \in {"", "none"} \/ d.lat \in {"", "none"} \/ LDead(st, d.ln) \/ d.loc \/ Cardinality(d.ps) # 1, "C07", "remote state lost")
       [] k \in {"closel", "detach"} ->
            IF ln = 0 THEN st1
            ELSE LET l == st.ls[ln]
                     s1 == ChkS(st1, si, e.x # "LinkDetached" \/ (l.id /\ e.c = l.derr /\ l.derr # ""), "C10", "a close reports a reason the peer did not give")
                 IN ChkS(s1, si, bad \/ o.ch # 0 \/ ~l.id \/ l.derr = "" \/ l.viol # "" \/ SDead(st, si) \/ AnyMal(st) \/ st.cn.svcerr,
                         "C10", "a close does not report the peer's reason")
       [] k = "end" ->
            IF si = 0 THEN st1
            ELSE LET s == st.ss[si]
                     s1 == ChkS(st1, si, ~bad \/ (e.x = "SessionEnded" /\ s.ie /\ e.c = s.ierr /\ s.ierr # ""), "C10", "an end reports a reason the peer did not give")
                 IN ChkS(s1, si, bad \/ o.ch # 0 \/ ~s.ie \/ s.ierr = "" \/ CDead(st) \/ AnyMal(st) \/ st.cn.svcerr,
                         "C10", "an end does not report the peer's reason")
       [] k \in {"rwait", "rpeek"} ->
            LET key == o.key IN
            IF key = <<>> \/ ~Has(st.rd, key) THEN st1
            ELSE
            LET d == st.rd[key]
                quiet == d.st0 \/ d.want # "" \/ AnyRcv(d.ss)
                r == Reason(st, d.ln)
            IN IF k = "rpeek" THEN
                 LET s1 == ChkS(st1, key[1], e.state = "none" \/ e.state \in d.ss, "C08", "remote state the sender did not report")
                 IN ChkS(s1, key[1], e.state # "none" \/ d.ssq = {} \/ AnyRcv(d.ss) \/ d.st0 \/ ~LLive(st, d.ln), "C08", "the sender's state was lost")
               ELSE IF e.r = "ok" THEN
                 LET s1 == ChkS(st1, key[1], e.state \in d.ss \/ (e.state = "none" /\ (quiet \/ (d.ps # 0 /\ d.ss = {}))), "C08", "wait returned a state the sender did not report")
                     s2 == ChkS(s1, key[1], e.rs => d.ps # 0, "C08", "reports a settlement the sender did not make")
                 IN ChkS(s2, key[1], d.ps = 2 => e.rs \/ d.st0 \/ LDead(st, d.ln), "C08", "does not report the sender's settlement")
               ELSE
                 LET s1 == ChkS(st1, key[1], LDead(st, d.ln), "C08", "wait on a received delivery failed on a live link")
                 IN ChkS(s1, key[1], r = <<>> \/ r[1] # "LinkDetached" \/ <<e.x, e.c>> = r, "C10", "a failed wait does not carry the peer's reason")
       [] k = "setmax" ->
            IF ln = 0 THEN st1
            ELSE IF st.ls[ln].role = "S" THEN [st1 EXCEPT !.ls[ln].mms = {o.ch}]
            ELSE st1
       [] k = "look" -> LookRet(st1, o.e, e)
       [] OTHER -> st1

CancelEv(st, e) ==
  IF ~Has(st.ops, e.op) THEN st
  ELSE LET o == st.ops[e.op]
           s1 == [st EXCEPT !.ops = IF o.k = "begin" /\ ~o.sent THEN Put(@, e.op, [o EXCEPT !.k = "begin", !.dead = TRUE, !.due = TRUE]) ELSE Del(@, e.op)]
       IN IF o.k = "send" /\ Has(st.sn, e.op) THEN [s1 EXCEPT !.sn[e.op].stt = "cancel"]
          ELSE IF o.k = "att" /\ o.ln # 0 THEN [s1 EXCEPT !.ls[o.ln].orphan = TRUE]
          ELSE s1

----------------------------------------------------------------------------
(* Control service                                                          *)
RemoteKinds == {"AttachSender", "AttachReceiver", "Flow", "RemoteDetachSender", "RemoteDetachReceiver",
                "RemoteSessionEnded", "ProtocolError"}
TakeCx(st, i) ==
  LET s1 == Chk(st, \A j \in 1..(i-1) : st.cx[j].opt, "C19", "control events out of order")
  IN [s1 EXCEPT !.cx = RemoveAt(@, i)]

CtlEv(st, e) ==
  LET k == e.k
      s00 == BindS(st, e.s, e.lch, e.rch)
      si == SOf(s00, e.s)
      s0 == IF k \in {"Flow", "RemoteDetachSender", "RemoteDetachReceiver", "LocalDetachSender", "LocalDetachReceiver"}
            THEN BindCtl(s00, e, si) ELSE s00
      reg(s, ln, x) == [s EXCEPT !.ct = Put(@, e.n, [k |-> k, ln |-> ln, x |-> x])]
  IN CASE k \in {"AttachSender", "AttachReceiver"} ->
            LET i == First(s0.cx, LAMBDA c : c.k = k /\ s0.ls[c.ln].ih = e.h /\ s0.ls[c.ln].nm = e.aname /\ c.s = si) IN
            IF i = 0 THEN ChkS(reg(s0, 0, 0), si, CDead(st), "C19", "attach control without an attach")
            ELSE LET ln == s0.cx[i].ln
                     s1 == TakeCx(s0, i)
                     s2 == BindL(s1, e.ln, ln)
                     s3 == ChkS(s2, si, Len(SelectSeq(<<e.ln>>, LAMBDA u : Has(st.lu, u))) = 0, "C12", "attach delivered with an existing link object")
                 IN reg([s3 EXCEPT !.ls[ln].cs = "ctl", !.ls[ln].oh = e.lh], ln, 0)
       [] k \in {"Flow", "RemoteDetachSender", "RemoteDetachReceiver"} ->
            LET ln == LOf(s0, e.ln)
                same(c) == k # "Flow" \/ c.x.cr = e.cr
                i0 == First(s0.cx, LAMBDA c : c.k = k /\ c.ln = ln /\ same(c))
                i == IF i0 # 0 THEN i0 ELSE First(s0.cx, LAMBDA c : c.k = k /\ c.ln = ln) IN
            IF ln = 0 THEN reg(ChkS(s0, si, CDead(st), "C19", "control event for an unknown link"), 0, 0)
            ELSE IF i = 0 THEN reg(ChkS(s0, si, CDead(st), "C19", "control event without a frame"), 0, 0)
            ELSE reg(ChkS(TakeCx(s0, i), si, k = "Flow" \/ e.err = s0.cx[i].x, "C19", "detach control does not carry the peer's reason"), ln, s0.cx[i].x)
       [] k = "RemoteSessionEnded" ->
            LET lset == { e.links[j] : j \in Idx(e.links) }
                lis == { Get(st.lu, u, 0) : u \in lset } \ {0}
                cand == { i \in Idx(s0.cx) : s0.cx[i].k = k /\ \A x \in lis : s0.ls[x].s = s0.cx[i].s }
                want(sx) == { j \in Idx(st.ls) : LET l == st.ls[j] IN l.s = sx /\ l.uid # -1 /\ l.oa /\ l.ia /\ ~l.id /\ ~l.od /\ ~l.lc
                                                 /\ l.viol = "" /\ l.dr = {} /\ (l.loc \/ l.cs = "ok") }
                fit == { i \in cand : want(s0.cx[i].s) \subseteq lis }
                must == { i \in fit : ~s0.cx[i].opt }
                i == IF cand = {} THEN 0 ELSE IF must # {} THEN SetMin(must) ELSE IF fit # {} THEN SetMin(fit) ELSE SetMin(cand) IN
            IF i = 0 THEN reg(Chk(s0, CDead(st), "C19", "session-end control without an end"), 0, 0)
            ELSE
              LET sx == s0.cx[i].s
              IN reg(ChkS(TakeCx(s0, i), sx, want(sx) \subseteq lis, "C19", "session end does not list its links"), 0, sx)
       [] k = "ProtocolError" ->
            LET i == First(s0.cx, LAMBDA c : c.k = k) IN
            LET s1 == [s0 EXCEPT !.cn.nperr = @ + 1] IN
            IF i = 0 THEN reg(Chk(s1, CDead(st) \/ AnyMal(st), "C19", "protocol-error control without a cause"), 0, 0)
            ELSE reg(Chk(TakeCx(s1, i), e.x = "Closed" /\ e.c = s0.cx[i].x, "C19", "close control does not carry the peer's reason"), 0, 0)
       [] k = "Disconnected" -> reg(Chk([s0 EXCEPT !.cn.ndisc = @ + 1], s0.cn.ndisc = 0, "C19", "disconnect reported twice"), 0, 0)
       [] k = "Closed" -> reg(Chk([s0 EXCEPT !.cn.nclosed = @ + 1], s0.cn.nclosed = 0 /\ (CDead(st) \/ AnyMal(st)), "C19", "closed reported twice or early"), 0, 0)
       [] k \in {"LocalDetachSender", "LocalDetachReceiver"} ->
            LET ln == LOf(s0, e.ln) IN
            IF ln # 0 /\ s0.ls[ln].orphan
            \* a link object that became known through a listing only: its calls were not seen
            THEN reg([s0 EXCEPT !.lcx = @ \cup {<<k, e.ln>>}, !.ls[ln].lc = TRUE, !.ls[ln].dr = @ \cup {"*"}], ln, 0)
            ELSE
            reg(ChkS(ChkS(ChkS([s0 EXCEPT !.lcx = @ \cup {<<k, e.ln>>}, !.cn.lcr = IF ln # 0 THEN Max2(@, s0.ls[ln].lcn) ELSE @],
                    si, ln = 0 \/ s0.ls[ln].lcn = 0 \/ s0.ls[ln].lcn > s0.cn.lcr, "C19", "local detaches reported out of order"),
                    si, <<k, e.ln>> \notin s0.lcx, "C19", "local detach reported twice"),
                    si, ln # 0 /\ (s0.ls[ln].lc \/ s0.ls[ln].dr # {} \/ CDead(st)), "C19", "local detach reported for a link nobody detached"), ln, 0)
       [] OTHER -> reg(s0, 0, 0)

CtlrEv(st, e) ==
  IF ~Has(st.ct, e.n) THEN st
  ELSE
  LET c == st.ct[e.n]
      st1 == [st EXCEPT !.ct = Del(@, e.n)]
      ln == c.ln
      ok == e.er = "-"
  IN IF ln = 0 THEN st1
     ELSE
     LET l == st.ls[ln]
         matches == \E r \in Idx(st.cfg.routes) :
                       /\ Len(st.cfg.routes[r]) = Len(l.tseg)
                       /\ \A j \in Idx(l.tseg) : st.cfg.routes[r][j] \in {"*", l.tseg[j]}
     IN
     CASE c.k = "AttachSender" ->
            IF ok THEN [st1 EXCEPT !.ls[ln].cs = "ok", !.ab = IF e.all THEN Append(@, ln) ELSE @]
            ELSE [MarkOptL(st1, ln) EXCEPT !.ls[ln].cs = "err", !.ls[ln].dr = @ \cup {e.er}]
       [] c.k = "AttachReceiver" ->
            IF ~ok THEN [MarkOptL(st1, ln) EXCEPT !.ls[ln].cs = "err", !.ls[ln].dr = @ \cup {e.er}]
            ELSE IF st.cfg.pub = "router" THEN
              IF l.hastgt /\ matches THEN [st1 EXCEPT !.ls[ln].cs = "pub"]
              ELSE [MarkOptL(st1, ln) EXCEPT !.ls[ln].cs = "err", !.ls[ln].dr = @ \cup {"!"}]
            ELSE IF st.cfg.side = "cli" THEN [st1 EXCEPT !.ls[ln].cs = "ok"]
            ELSE [st1 EXCEPT !.ls[ln].cs = "pub"]
       [] c.k = "Flow" ->
            IF ~ok THEN LET s1 == MarkOptL(st1, ln) IN [s1 EXCEPT !.ls[ln].dr = @ \cup {e.er}]
            ELSE IF ~c.x.has THEN st1
            ELSE
              \* answers given out of order leave open which flow is the latest
              LET older == \E n \in DOMAIN st1.ct : n < e.n /\ st1.ct[n].k = "Flow" /\ st1.ct[n].ln = ln
                  newer == \E n \in DOMAIN st1.ct : n > e.n /\ st1.ct[n].k = "Flow" /\ st1.ct[n].ln = ln
                  lim == IF c.x.rel THEN l.dc0 + c.x.lim ELSE c.x.lim
                  cr == lim > l.cnt + Cardinality({ o \in DOMAIN st.sn : st.sn[o].ln = ln })
              IN [st1 EXCEPT !.ls[ln].lims = @ \cup {lim}, !.ls[ln].llast = lim, !.ls[ln].cred = TRUE, !.ls[ln].relp = c.x.rel /\ ~l.oa,
                             !.ls[ln].amb = (@ \/ older) /\ (older \/ newer \/ l.amb),
                             !.ops = [p \in DOMAIN @ |-> IF @[p].k = "oncredit" /\ @[p].ln = ln /\ cr THEN [@[p] EXCEPT !.due = TRUE] ELSE @[p]]]
       [] OTHER -> st1

MsgEv(st, e) ==
  LET s0 == IF e.k = "attached" \/ e.k = "transfer" \/ e.k = "detached" THEN BindS(st, e.s, e.lch, e.rch) ELSE st
      ln == IF e.k = "detachedall" THEN 0 ELSE LOf(s0, e.ln)
      s1 == [s0 EXCEPT !.mg = Put(@, e.n, [k |-> e.k, ln |-> ln])]
      C(s, ok, w) == ChkS(s, s.ls[ln].s, ok, "C25", w)
      told(s, li) == [ChkS(s, s.ls[li].s, ~s.ls[li].md, "C25", "detach of a link told twice") EXCEPT !.ls[li].md = TRUE]
  IN CASE e.k = "attached" ->
       IF ln = 0 THEN ChkS(s1, SOf(s0, e.s), CDead(st), "C19", "attached message for an unknown link")
       ELSE LET l == s1.ls[ln]
                s2 == ChkS([s1 EXCEPT !.ls[ln].cs = "msg", !.ls[ln].ma = TRUE], l.s, l.cs = "pub" \/ CDead(st), "C19", "attach accepted before the control service answered")
                s3 == C(s2, ~l.ma, "link announced twice")
                s4 == C(s3, ~l.md, "link announced after its detach")
            IN C(s4, e.aname = l.nm /\ e.h = l.ih, "link announced with another link's attach")
    [] e.k = "transfer" /\ ln # 0 ->
       LET l == s1.ls[ln]
           s2 == C([s1 EXCEPT !.ls[ln].mt = @ + 1], l.mt < l.mtc, "delivery told although none is complete")
           s3 == C(s2, l.ma \/ l.loc \/ l.orphan, "delivery told before its link")
       IN C(s3, ~l.md, "delivery told after the detach of its link")
    [] e.k = "detached" /\ ln # 0 ->
       LET l == s1.ls[ln] IN
       IF l.md /\ st.ss[l.s].lend THEN s1   \* closed after the end of its session was told
       ELSE told(C(s1, LDead(s1, ln) \/ l.dr # {} \/ l.cs = "err", "detach told for an open link"), ln)
    [] e.k = "detachedall" ->
       LET lis == { Get(s1.lu, e.links[j], 0) : j \in Idx(e.links) } \ {0}
       IN FoldSet2(LAMBDA s, li : told(ChkS(s, s.ls[li].s, SDead(s, s.ls[li].s), "C25", "end of a session told that is open"), li), s1,
                  \* (calls of a service that was not ready are not in order)
                  { li \in lis : ~("pub?" \in st.srd /\ s1.ls[li].md /\ SDead(s1, s1.ls[li].s)) })
    [] OTHER -> s1

MsgrEv(st, e) ==
  IF ~Has(st.mg, e.n) THEN st
  ELSE LET m == st.mg[e.n]
           s1 == [st EXCEPT !.mg = Del(@, e.n)]
           ln == m.ln IN
       IF ln = 0 THEN s1
       ELSE IF m.k = "attached" THEN
         IF e.er = "-" THEN [s1 EXCEPT !.ls[ln].cs = "ok", !.ls[ln].mok = ~LDead(s1, ln)]
         ELSE [MarkOptL(s1, ln) EXCEPT !.ls[ln].cs = "err", !.ls[ln].dr = @ \cup {e.er}]
       ELSE IF m.k = "transfer" /\ e.er # "-" THEN [MarkOptL(s1, ln) EXCEPT !.ls[ln].dr = @ \cup {e.er}]
       ELSE s1

----------------------------------------------------------------------------
(* Router                                                                   *)
HndEv(st, e) ==
  CASE e.k = "new" ->
         LET s0 == BindS(st, e.s, e.lch, e.rch)
             ln == LOf(s0, e.ln) IN
         IF ln = 0 THEN ChkS(s0, SOf(s0, e.s), CDead(st), "C18", "handler for an unknown link")
         ELSE LET l == s0.ls[ln]
                  s1 == ChkS(s0, l.s, l.cs = "pub", "C18", "handler created twice, or before the attach was accepted")
                  s2 == ChkS(s1, l.s, /\ Len(e.pseg) = Len(l.tseg) /\ e.aseg = l.tseg
                                      /\ \A j \in Idx(l.tseg) : e.pseg[j] \in {"*", l.tseg[j]},
                             "C18", "the link is served by the wrong handler")
              IN [s2 EXCEPT !.ls[ln].cs = "hnew", !.ls[ln].hid = e.hid,
                            !.hd = Put(@, e.hid, [ln |-> ln, live |-> TRUE, ok |-> FALSE, busy |-> 0])]
    [] e.k = "msg" ->
         IF ~Has(st.hd, e.hid) THEN Chk(st, AnyMal(st), "C18", "message for an unknown handler")
         ELSE LET ln == st.hd[e.hid].ln
                  si == st.ls[ln].s
                  s1 == PopQ(st, ln, e, "C18")
                  s2a == ChkS(s1, si, st.hd[e.hid].live, "C18", "message for a handler that was shut down")
                  s2 == ChkS(s2a, si, st.hrd = "ok" \/ (st.hrd = "one" /\ st.hd[e.hid].busy = 0), "C18", "message for a handler that is not ready")
                  key == <<si, e.did>>
              IN [s2 EXCEPT !.hm = Put(@, e.n, key), !.hd[e.hid].busy = @ + 1,
                            !.rd = IF Has(@, key) THEN Put(@, key, [@[key] EXCEPT !.hnd = TRUE]) ELSE @]
    [] e.k = "rdy" -> [st EXCEPT !.hrd = e.m]
    [] e.k = "rdyerr" ->
         \* a handler that fails is gone: its link is closed
         IF ~Has(st.hd, e.hid) THEN st ELSE LET ln == st.hd[e.hid].ln IN [MarkOptL(st, ln) EXCEPT !.ls[ln].dr = @ \cup {"hnd!"},
                    !.rd = [k \in DOMAIN @ |-> IF @[k].ln = ln THEN [@[k] EXCEPT !.opt = TRUE] ELSE @[k]]]
    [] e.k = "shutdown" ->
         IF ~Has(st.hd, e.hid) THEN st
         ELSE LET h == st.hd[e.hid]
                  s1 == ChkS(st, st.ls[h.ln].s, h.live, "C18", "handler shut down twice")
                  s2 == ChkS(s1, st.ls[h.ln].s, LDead(st, h.ln) \/ st.ls[h.ln].dr # {}, "C18", "handler shut down while its link is open")
              IN [s2 EXCEPT !.hd[e.hid].live = FALSE]
    [] OTHER -> st
HndrEv(st, e) ==
  IF ~Has(st.hd, e.hid) THEN st
  ELSE LET h == st.hd[e.hid] IN
    IF e.n = e.hid THEN
      IF e.er = "-" THEN [st EXCEPT !.hd[e.hid].ok = TRUE, !.ls[h.ln].cs = "ok"]
      ELSE [MarkOptL(st, h.ln) EXCEPT !.hd[e.hid].live = FALSE, !.ls[h.ln].cs = "err", !.ls[h.ln].dr = @ \cup {e.er}]
    ELSE IF ~Has(st.hm, e.n) THEN st
    ELSE LET key == st.hm[e.n] IN
      [st EXCEPT !.hm = Del(@, e.n), !.hd[e.hid].busy = @ - 1,
                 !.rd = IF Has(@, key) THEN Put(@, key, [@[key] EXCEPT !.want = IF @ = "" THEN e.out ELSE @, !.opt = FALSE]) ELSE @]

----------------------------------------------------------------------------
(* Quiescence: everything received has been processed, everything sent read *)

\* the connection is gone and the control service has answered
CDue(st, e) == CDead(st) /\ (st.cn.cin \/ st.cn.force \/ e.cw = 0)
SDue(st, e, si) == CDue(st, e) \/ st.ss[si].ie
LDue(st, e, li) == SDue(st, e, st.ls[li].s) \/ LET l == st.ls[li] IN IdSure(st, l) \/ (~CDead(st) /\ ~SDead(st, l.s) /\ (l.lc \/ l.od))
Credited(st, li) == LET l == st.ls[li] IN l.lims # {} /\ \A x \in l.lims : x > l.cnt
WinOpen(st, si) == LET s == st.ss[si] IN s.wl # {} /\ \A w \in s.wl : s.onoi + s.tx < w
HasMsg(l) == \E i \in Idx(l.q) : ~l.q[i].opt

\* one pending operation
QOp(st, e, p) ==
  LET o == st.ops[p]
      k == o.k
      li == o.ln
      si == o.s
      both == {"C09", "C10"}
  IN CASE k = "begin" ->
            IF o.dead /\ o.due THEN st
            ELSE LET s1 == ChkSet(st, ~CDue(st, e), {"C10"}, "session open still pending on a dead connection")
                     ans == o.sent /\ \E i \in Idx(st.ss) : st.ss[i].loc /\ st.ss[i].och = o.ch /\ st.ss[i].ib /\ ~st.ss[i].oe /\ st.ss[i].uid = -1
                 IN ChkSet(s1, ~ans, {"C09", "C13"}, "session open still pending although answered")
       [] k = "end" ->
            IF si = 0 THEN st
            ELSE LET s1 == ChkSet(st, ~CDue(st, e), {"C10"}, "session end still pending on a dead connection")
                 IN ChkSS(s1, si, ~st.ss[si].ie, {"C09", "C10", "C13"}, "session end still pending although answered")
       [] k = "onclosec" -> ChkSet(st, ~CDue(st, e), {"C10", "C14"}, "connection close waiter did not fire")
       [] k \in {"close", "force", "credit", "setmax", "hasdel", "getdel", "settle", "upd", "drop", "look", "getsess", "rstate", "rpeek"} ->
            ChkSet(st, FALSE, {"C09"}, "an operation that cannot block is blocked")
       [] k = "wait" ->
            IF o.key = <<>> THEN st
            ELSE LET ks == o.key[1] IN
            IF ~Has(st.sd, o.key) THEN
              ChkSS(st, ks, ~\E i \in Idx(st.ls) : FALSE, both, "")
            ELSE LET d == st.sd[o.key]
                     s1 == ChkSS(st, ks, ~SDue(st, e, ks) /\ ~IdSure(st, st.ls[d.ln]), {"C10"}, "delivery wait still pending although its link is gone")
                     many == Cardinality({ r \in DOMAIN st.ops : st.ops[r].k = "wait" /\ st.ops[r].key = o.key }) > 1
                 IN ChkSS(s1, ks, (d.lat = "" /\ d.setl = 0) \/ (IsRcv(d.lat) /\ many) \/ st.ss[ks].lend, {"C07", "C09"}, "delivery wait still pending although its outcome arrived")
       [] k = "rwait" ->
            IF o.key = <<>> \/ ~Has(st.rd, o.key) THEN st
            ELSE LET ks == o.key[1]
                     d == st.rd[o.key]
                     s1 == ChkSS(st, ks, ~SDue(st, e, ks) /\ ~IdSure(st, st.ls[d.ln]), {"C10"}, "delivery wait still pending although its link is gone")
                 IN ChkSS(s1, ks, (d.ss = {} /\ d.ps = 0 /\ ~d.st0 /\ d.want = "") \/ AnyRcv(d.ss) \/ st.ss[ks].lend, {"C08", "C09"},
                          "wait on a received delivery still pending although its outcome arrived")
       [] li = 0 -> IF si # 0 /\ k = "detach" THEN ChkSS(st, si, FALSE, {"C09"}, "detach of an unknown link is blocked") ELSE st
       [] k = "att" ->
            LET l == st.ls[li]
                s1 == ChkSS(st, si, ~SDue(st, e, si) /\ ~o.dead, {"C10"}, "attach still pending although its session is gone")
            IN ChkSS(s1, si, ~(l.ia \/ l.id) \/ st.ss[si].lend, {"C09", "C11", "C12"}, "attach still pending although answered")
       [] k \in {"closel", "detach"} ->
            LET l == st.ls[li]
                s1 == ChkSS(st, si, ~SDue(st, e, si) /\ ~o.dead, {"C10"}, "detach still pending although its session is gone")
            IN ChkSS(s1, si, ~IdSure(st, l), {"C09", "C11", "C12"}, "detach still pending although answered")
       [] OTHER ->
            LET l == st.ls[li]
                s1 == IF k = "recv" /\ o.len THEN st
                      ELSE ChkSS(st, si, ~LDue(st, e, li) /\ ~o.dead, both, "operation still pending although its link is gone")
            IN CASE k = "send" -> ChkSS(s1, si, LDead(st, li) \/ ~(Credited(st, li) /\ WinOpen(st, si)), {"C09"}, "send still pending although credit and window are available")
                 [] k = "ready" -> ChkSS(s1, si, LDead(st, li) \/ ~Credited(st, li), {"C09"}, "ready still pending although credit is available")
                 [] k = "oncredit" -> ChkSS(s1, si, ~o.due, {"C09"}, "credit waiter was not woken")
                 [] k = "recv" -> ChkSS(s1, si, o.len \/ LDead(st, li) \/ ~HasMsg(l), {"C05", "C09"}, "receive still pending although a message is complete")
                 [] OTHER -> s1

\* sends against the wire
QSend(st, p) ==
  LET n == st.sn[p]
      si == st.ls[n.ln].s
      cand == { w \in st.wd : w.ln = n.ln /\ w.did = n.did }
  IN IF n.stt # "ok" THEN st
     ELSE IF cand = {} THEN
       LET part == st.ls[n.ln].cur.on /\ st.ls[n.ln].cur.did = n.did
       IN ChkSS([st EXCEPT !.sn = Del(@, p)], si, CDead(st) \/ SDead(st, si), {"C03", "C04"},
                IF part THEN "send completed but its last frame is not on the wire" ELSE "send completed but no delivery with its id is on the wire")
     ELSE LET w == CHOOSE w \in cand : TRUE
              s1 == [st EXCEPT !.sn = Del(@, p), !.wd = @ \ {w}]
              s2 == ChkS(s1, si, w.body = n.body, "C04", "payload on the wire differs from the message")
              s3 == ChkS(s2, si, w.fmt = IF n.fmt < 0 THEN w.fmt ELSE n.fmt, "C04", "message format differs")
              s4 == ChkS(s3, si, n.fmt >= 0 \/ w.fmt \in {-1, 0}, "C04", "message format invented")
              s5 == ChkS(s4, si, w.st = n.st, "C04", "settled flag differs")
              s6 == ChkS(s5, si, n.tag = "-" \/ w.tag = n.tag, "C04", "tag on the wire differs from the requested one")
              s7 == ChkS(s6, si, w.tag = n.tagr, "C03", "tag handed back differs from the one on the wire")
              key == <<si, n.did>>
          IN IF n.tag # "-" \/ ~Has(s7.sd, key) THEN s7
             ELSE ChkS([s7 EXCEPT !.sd[key].gen = TRUE], si,
                       ~\E k \in DOMAIN s7.sd : k # key /\ s7.sd[k].gen /\ s7.sd[k].ln = n.ln /\ s7.sd[k].setl = 0 /\ s7.sd[k].tag = w.tag,
                       "C03", "generated tag is already in use on its link")
QLeft(st, w) ==
  LET si == w.s
      fits(p) == LET n == st.sn[p] IN n.ln = w.ln /\ n.body = w.body /\ n.st = w.st /\ (n.fmt < 0 \/ n.fmt = w.fmt) /\ (n.tag = "-" \/ n.tag = w.tag)
      cand == { p \in DOMAIN st.sn : fits(p) /\ st.sn[p].stt \in {"cancel", "err"} }
      pend == { p \in DOMAIN st.sn : fits(p) /\ st.sn[p].stt = "pend" }
      s1 == [st EXCEPT !.wd = @ \ {w}]
  IN IF cand # {} THEN [s1 EXCEPT !.sn = Del(@, CHOOSE p \in cand : TRUE)]
     ELSE IF pend # {} THEN ChkSS(s1, si, CDead(st), {"C09"}, "delivery is on the wire but its send is still pending")
     ELSE ChkSS(s1, si, FALSE, {"C04"}, "delivery on the wire that nobody sent, or sent twice")

\* one link
QLink(st, e, li) ==
  LET l == st.ls[li]
      si == l.s
      live == SLive(st, si)
      C(s, ok, ps, w) == ChkSS(s, si, ok \/ ~live, ps, w)
      rem == ~l.loc
      s1 == C(st, ~(l.cur.on /\ ~LDead(st, li) /\ WinOpen(st, si)), {"C04", "C09"}, "delivery left unfinished although the window is open")
      s2 == C(s1, ~(rem /\ l.cs = "err") \/ (l.oa /\ l.od), {"C11", "C19"} \cup (IF st.cfg.pub = "router" THEN {"C18"} ELSE {}), "refused attach not answered by attach and detach")
      s3 == C(s2, ~(rem /\ l.cs \in {"ok"}) \/ l.oa, {"C11"}, "accepted attach not answered")
      s4 == C(s3, ~(rem /\ l.cs = "pub") \/ l.id \/ l.lc, {"C11", "C18", "C19"}, "attach accepted by the control service but not offered to the application")
      s5 == C(s4, ~(l.id /\ l.oa) \/ l.od, {"C11"}, "detach not answered")
      s6 == C(s5, ~l.lc \/ l.od, {"C11", "C12"}, "local detach not sent")
      s7 == C(s6, l.viol = "" \/ l.od, {"C06"}, "limit violation not signalled")
      s8 == C(s7, (l.dr \ {"*", TLE, MSE}) = {} \/ l.od, {"C19", "C11"}, "service error did not close the link")
      s9 == C(s8, ~(l.loc /\ l.cs = "loc") \/ l.oa, {"C11"}, "local attach not sent")
      s10 == C(s9, ~(LLive(st, li) /\ l.gq # <<>>), {"C24"}, "granted credit not announced")
      s11 == C(s10, ~(st.cfg.pub = "router" /\ l.role = "R" /\ rem /\ LLive(st, li) /\ l.cs = "ok" /\ e.hw = 0 /\ HasMsg(l)), {"C18"}, "message not dispatched to its handler")
      s12 == C(s11, ~(st.cfg.pub = "router" /\ l.role = "R" /\ rem /\ LLive(st, li) /\ l.cs = "ok" /\ e.hw = 0 /\ ~l.part.on /\ l.gseen <= l.got), {"C24"}, "router leaves the peer without credit")
      raw == st.cfg.side = "srv" /\ st.cfg.pub = "raw" /\ l.role = "R" /\ e.cw = 0
      s13 == C(s12, ~(raw /\ LLive(st, li) /\ (l.ma \/ l.loc)) \/ l.mt >= l.mtn, {"C25"}, "complete delivery not told to the publish service")
      over == IF l.mok THEN IdSure(st, l) \/ l.lc \/ l.od \/ st.ss[si].ie \/ st.ss[si].lend ELSE IdSure(st, l) /\ ~l.lc /\ l.cs # "err"
      s14 == ChkS(s13, si, ~(raw /\ l.ma /\ over /\ ~CDead(st)) \/ l.md, "C25", "end of a link not told to the publish service")
  IN s14
QHandler(st, h) ==
  LET r == st.hd[h]
      l == st.ls[r.ln]
      gone == l.id \/ st.ss[l.s].ie
  IN ChkSS(st, l.s, ~(r.live /\ r.ok /\ gone /\ r.busy = 0 /\ ~CDead(st)), {"C18"}, "handler not shut down although its link is gone")
\* what the link objects report
QObj(st, e, i) ==
  LET r == e.ls[i]
      li == LOf(st, r[1])
  IN IF li = 0 THEN st
     ELSE
     LET l == st.ls[li]
         si == l.s
         s1 == ChkSS(st, si, ~LDue(st, e, li) \/ r[2], {"C10"}, "link that is gone reports itself open")
         s2 == ChkSS(s1, si, LDead(st, li) \/ l.dr # {} \/ l.cs \in {"err"} \/ ~r[2], {"C10", "C12"}, "open link reports itself closed")
     IN IF ~LLive(st, li) \/ l.dr # {} THEN s2
        ELSE IF l.role = "S" THEN
          ChkS(s2, si, l.lims = {} \/ \E x \in (IF l.amb THEN l.lims ELSE {l.llast}) : Norm(r[3]) = Norm(Max2(0, x - l.cnt)), "C01", "reported credit is not limit minus deliveries started")
        ELSE ChkS(s2, si, r[3] \in {l.gseen - l.got, l.gseen - l.gotc} \/ Norm(r[3]) = CAP, "C24", "reported credit is not what remains of the grants")
QSess(st, e, si) ==
  LET s == st.ss[si]
      dead == CDead(st)
      s1 == ChkSS(st, si, dead \/ ~(s.ie /\ s.ob) \/ s.oe, {"C13"}, "end not answered")
      s2 == ChkSS(s1, si, dead \/ ~s.lend \/ s.oe, {"C13"}, "local end not sent")
      s3 == ChkSS(s2, si, dead \/ s.full \/ ~(s.ib /\ ~s.loc) \/ s.ob, {"C13"}, "begin not answered")
  IN ChkSS(s3, si, ~SLive(st, si) \/ ~s.echo, {"C24"}, "echo request not answered by a flow")
QSObj(st, e, i) ==
  LET r == e.ss[i]
      si == SOf(st, r[1])
  IN IF si = 0 \/ ~SLive(st, IF si = 0 THEN 1 ELSE si) THEN st
     ELSE LET s == st.ss[si] IN
          ChkS(st, si, s.wl = {} \/ Norm(r[2]) = Norm(Max2(0, s.wlast - (s.onoi + s.tx))), "C02", "reported window does not match the peer's latest flow")
QDisp(st, key) ==
  LET r == st.rd[key]
      live == LLive(st, r.ln)
      s1 == ChkSS(st, key[1], ~live \/ r.want = "" \/ r.st0 \/ r.ps # 0 \/ r.nset, {"C08"} \cup (IF r.hnd THEN {"C18"} ELSE {}), "outcome given by the application was not sent")
  IN ChkSS(s1, key[1], ~live \/ r.st0 \/ r.ps # 0 \/ r.upds = <<>>, {"C08"}, "state update was not sent")
QConn(st, e) ==
  LET c == st.cn
      idle == e.cw = 0 /\ e.mw = 0 /\ e.hw = 0
      s1 == ChkSet(st, ~(c.cin /\ c.first = "cin") \/ c.cout \/ c.eof \/ c.force, {"C14"}, "close not answered")
      s2 == ChkSet(s1, ~(c.lclose /\ c.first = "lclose") \/ c.cout \/ c.force, {"C14"}, "local close not sent")
      s3 == ChkSet(s2, ~CDue(st, e) \/ ~e.open, {"C14", "C10"}, "dead connection reports itself open")
      s4 == ChkSet(s3, CDead(st) \/ c.svcerr \/ AnyMal(st) \/ e.open, {"C14", "C10", "C23"}, "live connection reports itself closed")
      s5 == ChkSet(s4, ~(c.cin /\ c.first = "cin") \/ c.lclose \/ c.force \/ (e.x = "Closed" /\ e.c = c.cerr), {"C14"}, "connection error is not the peer's reason")
      s6 == ChkSet(s5, ~(CDead(st) /\ idle) \/ e.done, {"C14", "C10"}, "connection task did not finish")
      s7 == ChkSet(s6, ~e.done \/ ~idle \/ c.nclosed = 1 \/ c.force \/ "ctl!" \in st.srd, {"C14", "C19"}, "closed event not delivered")
      s8 == ChkSet(s7, ~(c.eof /\ c.first = "eof") \/ c.ndisc = 1 \/ c.svcerr, {"C19"}, "disconnect event not delivered")
      s9 == ChkSet(s8, \A i \in Idx(st.cx) : st.cx[i].opt \/ (CDead(st) /\ st.cx[i].k # "ProtocolError"), {"C19"}, "control event not delivered")
      s10 == ChkSet(s9, ~e.done \/ ~idle \/ c.sdc = 1 \/ c.force, {"C19"}, "control service not shut down although the connection has ended")
      s11 == ChkSet(s10, ~e.done \/ ~idle \/ c.sdp = 1 \/ c.force \/ st.cfg.side = "cli" \/ st.cfg.pub # "raw", {"C25"},
                    "publish service not shut down although the connection has ended")
  IN s11

QFatal(st, e) ==
  LET c == st.cn
      X(s, ok, w) == IF ok THEN s ELSE V(s, "C23", w)
      idle == e.cw = 0 /\ e.mw = 0 /\ e.hw = 0
  IN IF ~c.fat \/ e.cw > 0 THEN st
     ELSE LET s1 == X(st, ~e.open, "connection stays open after input that must end it")
              s2 == X(s1, ~idle \/ e.done, "connection task did not finish after input that must end it")
          IN X(s2, \A p \in DOMAIN st.ops : st.ops[p].k \in {"wait"} \/ (st.ops[p].dead /\ st.ops[p].due) \/ st.ops[p].len, "operation still pending after input that must end the connection")

Collapse(st, e) ==
  [st EXCEPT !.cx = IF e.cw > 0 THEN @ ELSE SelectSeq(@, LAMBDA c : ~c.opt),
             !.ss = [i \in Idx(@) |-> [@[i] EXCEPT !.wl = IF @ = {} THEN {} ELSE {st.ss[i].wlast}, !.rxq = st.ss[i].rx, !.ieq = st.ss[i].ie]],
             !.cn.deadq = CDead(st), !.cn.fats = IF e.cw > 0 THEN @ ELSE 0,
             !.ls = [i \in Idx(@) |-> LET l == @[i] IN
                       [l EXCEPT !.lims = IF l.amb \/ l.lims = {} THEN l.lims ELSE {l.llast}, !.qn = Len(l.q), !.gotq = l.gotc, !.idq = IdSure(st, l),
                                 !.mmx = {l.mlast}]],
             !.rd = [k \in DOMAIN @ |-> [@[k] EXCEPT !.ps = IF @ = 1 THEN 2 ELSE @, !.ssq = @ \cup st.rd[k].ss]],
             !.sd = [k \in DOMAIN @ |-> LET d == @[k] IN
                       [d EXCEPT !.setl = IF @ = 1 THEN 2 ELSE @, !.latq = d.lat,
                                 !.ps = IF d.lat \in {"", "none"} THEN (IF d.setl > 0 THEN {"none"} ELSE {})
                                        ELSE {d.lat} \cup (IF d.setl > 0 /\ IsRcv(d.lat) THEN {"none"} ELSE {})]],
             !.sn = [p \in { q \in DOMAIN @ : @[q].stt \in {"pend"} \/ (@[q].stt \in {"cancel", "err"} /\ ~LHard(st, @[q].ln)) } |-> @[p]]]

QEv(st, e) ==
  LET a0 == QFatal([st EXCEPT !.ab = <<>>], e) IN
  IF st.cn.mal THEN a0
  ELSE
  LET a1 == FoldSet2(LAMBDA s, p : QSend(s, p), a0, DOMAIN a0.sn)
      a2 == FoldSet2(LAMBDA s, w : QLeft(s, w), a1, a1.wd)
      a3 == FoldSet2(LAMBDA s, p : QOp(s, e, p), a2, DOMAIN a2.ops)
      a4 == FoldIdx(LAMBDA s, i : QLink(s, e, i), a3, 1, Len(a3.ls))
      a5 == FoldIdx(LAMBDA s, i : QObj(s, e, i), a4, 1, Len(e.ls))
      a6 == FoldIdx(LAMBDA s, i : QSess(s, e, i), a5, 1, Len(a5.ss))
      a7 == FoldIdx(LAMBDA s, i : QSObj(s, e, i), a6, 1, Len(e.ss))
      a8 == FoldSet2(LAMBDA s, k : QDisp(s, k), a7, DOMAIN a7.rd)
      a9 == FoldSet2(LAMBDA s, h : QHandler(s, h), a8, DOMAIN a8.hd)
  IN Collapse(QConn(a9, e), e)

----------------------------------------------------------------------------
Cause(st, c) == IF st.cn.first = "" THEN [st EXCEPT !.cn.first = c] ELSE st
FirstCause(old, new) ==
  IF old.cn.first # "" THEN new
  ELSE CASE new.cn.force -> Cause(new, "force")
         [] new.cn.cin -> Cause(new, "cin")
         [] new.cn.lclose -> Cause(new, "lclose")
         [] new.cn.fat -> Cause(new, "fat")
         [] new.cn.eof -> Cause(new, "eof")
         [] new.cn.ioend \/ new.cn.done -> Cause(new, "end")
         [] OTHER -> new

Step1(st, e) ==
  CASE e.e = "out"    -> OutEv(st, e)
    [] e.e = "in"     -> InEv(st, e)
    [] e.e = "call"   -> CallEv(st, e)
    [] e.e = "ret"    -> RetEv(st, e)
    [] e.e = "cancel" -> CancelEv(st, e)
    [] e.e = "ctl"    -> CtlEv(ChkSet(st, st.srd \cap {"ctl", "ctl!"} = {}, {"C19"}, "control service called while it is not ready"), e)
    [] e.e = "ctlr"   -> CtlrEv(st, e)
    [] e.e = "msg"    -> MsgEv(ChkSet(st, st.srd \cap {"pub", "pub!"} = {}, {"C25"}, "publish service called while it is not ready"), e)
    [] e.e = "msgr"   -> MsgrEv(st, e)
    [] e.e = "hnd"    -> HndEv(st, e)
    [] e.e = "svcrdy" -> [st EXCEPT !.srd = IF e.m = "hold" THEN @ \cup {e.k, e.k \o "?"} ELSE @ \ {e.k}]
    [] e.e = "svcerr" ->
         \* a service that fails ends the connection, its error is what the peer is told
         LET s1 == MayLose(MarkOptAll(st), LAMBDA i : TRUE)
         IN [s1 EXCEPT !.srd = @ \cup {e.k \o "!"}, !.cn.svcerr = TRUE, !.cn.lclose = TRUE, !.cn.lerr = IF st.cn.svcerr THEN @ ELSE IF CDead(st) THEN {} ELSE {e.er}]
    [] e.e = "hndr"   -> HndrEv(st, e)
    [] e.e = "q"      -> QEv(st, e)
    [] e.e = "sd"     -> LET ct == e.k = "ctl"
                             s1 == Chk(st, (IF ct THEN st.cn.sdc ELSE st.cn.sdp) = 0 /\ (CDead(st) \/ st.cn.svcerr \/ AnyMal(st)),
                                       IF ct THEN "C19" ELSE "C25", "service shut down twice or early")
                         IN IF ct THEN [s1 EXCEPT !.cn.sdc = @ + 1] ELSE [s1 EXCEPT !.cn.sdp = @ + 1]
    [] e.e = "eof"    -> [st EXCEPT !.cn.eof = TRUE]
    [] e.e = "ioend"  -> LET s1 == ChkSet(st, CDead(st) \/ st.cn.svcerr \/ AnyMal(st), {"C14", "C23"}, "connection dropped without a cause")
                         IN [s1 EXCEPT !.cn.ioend = TRUE]
    [] e.e = "done"   -> LET s1 == ChkSet(st, CDead(st) \/ st.cn.svcerr \/ AnyMal(st), {"C14", "C23"}, "connection task finished without a cause")
                         IN [s1 EXCEPT !.cn.done = TRUE]
    [] e.e = "panic"  -> MalC(V(V(st, "C23", "panic"), "*", "panic"))
    [] e.e = "livelock" -> MalC(V(V(st, "C23", "does not come to rest"), "*", "does not come to rest"))
    [] e.e = "crash"  -> MalC(V(V(st, "C23", "crash"), "*", "crash"))
    [] OTHER -> st
Step(st, e) == FirstCause(st, Step1([st EXCEPT !.v = {}], e))
=============================================================================
