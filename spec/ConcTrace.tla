----------------------------- MODULE ConcTrace -----------------------------
(***************************************************************************)
(* Accepts a trace of overlapping database operations iff it is            *)
(* linearizable: every operation takes effect at one instant between its   *)
(* call and its return; an expiry pass and a backup do so torrent by       *)
(* torrent.  A call has been made but not returned while its thread is in  *)
(* `pend`; the instants are the internal actions Act and Visit.            *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLE pend    \* thread -> [op, st, seen, over]: seen is what the operation saw,
                 \* over what the backups saw that returned in the meantime

cvars == <<vars, l, pend>>

CInit == TInit /\ pend = Empty
Keeps == pend' = pend

\* the torrents a pass or a backup has to get to
All3 == DOMAIN TraceDict.hs

Call ==
  /\ Is("call")
  /\ Ev.t \notin DOMAIN pend
  /\ pend' = Put(pend, Ev.t, [op |-> Ev, st |-> "called", seen |-> Empty, over |-> {}])
  /\ Same({})

One(op) == op.op \notin {"trim", "backup"}
CountsSeen(h) == [c |-> Complete(h), i |-> Incomplete(h)]

\* an operation on one torrent takes effect
Act(t) ==
  /\ pend[t].st = "called"
  /\ LET op == pend[t].op IN
     /\ One(op)
     /\ swarm' = CASE op.op = "save" -> Announced(swarm, op.h, op.p, op.ip, op.port, op.c)
                   [] op.op = "drop" -> Stopped(swarm, op.h, op.p)
                   [] OTHER -> swarm
     /\ pend' = [pend EXCEPT ![t].st = "done", ![t].seen = Peers(op.h)]
  /\ l' = l /\ Same({"swarm"})

\* a pass or a backup gets to torrent h
TrimmedOne(sw, h) ==
  IF h \notin DOMAIN sw THEN sw
  ELSE LET left == Only(sw[h], {p \in DOMAIN sw[h] : now - sw[h][p].seen <= cfg.expiry})
       IN IF DOMAIN left = {} THEN Only(sw, DOMAIN sw \ {h}) ELSE Put(sw, h, left)
Visit(t, h) ==
  /\ pend[t].st = "called" /\ ~One(pend[t].op)
  /\ h \notin DOMAIN pend[t].seen
  /\ pend' = [pend EXCEPT ![t].seen = Put(@, h, Peers(h))]
  /\ swarm' = IF pend[t].op.op = "trim" THEN TrimmedOne(swarm, h) ELSE swarm
  /\ l' = l /\ Same({"swarm"})

Internal == \E t \in DOMAIN pend : Act(t) \/ \E h \in All3 : Visit(t, h)

\* what was seen against what was returned
CntIn(m, c) == Cardinality({p \in DOMAIN m : m[p].c = c})
EntryIn(m, p, nopid) == [p |-> IF nopid THEN "-" ELSE p, ip |-> m[p].ip, port |-> m[p].port]
ListIn(m, list, bound, nopid) ==
  LET v(p) == EntryIn(m, p, nopid) IN ListOver(DOMAIN m, v, list, bound)
CompactIn(m, f, chunks, bound) ==
  LET v(p) == EntryIn(m, p, TRUE) IN ListOver({p \in DOMAIN m : Family(m[p].ip) = f}, v, chunks, bound)
FullEntry(m, p) == [p |-> p, ip |-> m[p].ip, port |-> m[p].port, c |-> m[p].c]
LoadedAs(m, list, c, i) ==
  /\ Len(list) = Cardinality(DOMAIN m)
  /\ {list[k] : k \in 1..Len(list)} = {EntryIn(m, p, FALSE) : p \in DOMAIN m}
  /\ c = CntIn(m, TRUE) /\ i = CntIn(m, FALSE)

\* what other backups in progress have seen of everything
Others(t) == {pend[u].seen : u \in {v \in DOMAIN pend \ {t} : pend[v].op.op = "backup" /\ DOMAIN pend[v].seen = All3}}

Ret ==
  /\ Is("ret")
  /\ LET q == pend[Ev.t]
         op == q.op
         m == q.seen
     IN
     CASE op.op = "trim" -> DOMAIN m = All3
       [] op.op = "backup" ->
            /\ DOMAIN m = All3
            /\ Chk("backup", /\ Ev.ok
                             \* the file is this backup, or another one made at the same time
                             /\ \E s \in {m} \cup q.over \cup Others(Ev.t) :
                                  \A h \in All3 : LoadedAs(s[h], Ev.got[h].peers, Ev.got[h].c, Ev.got[h].i)
                             /\ Ev.strange = 0)
       [] op.op = "stats" -> q.st = "done" /\ Chk("lin", Ev.c = CntIn(m, TRUE) /\ Ev.i = CntIn(m, FALSE))
       [] op.op = "list" -> q.st = "done" /\ Chk("lin", ListIn(m, Ev.peers, op.n, op.nopid))
       [] op.op = "listb" -> q.st = "done" /\ Chk("lin", /\ CompactIn(m, 4, Ev.v4, Least(op.n, cfg.numlim))
                                                         /\ CompactIn(m, 6, Ev.v6, Least(op.n, cfg.numlim)))
       [] OTHER -> q.st = "done"
  /\ pend' = LET rest == Only(pend, DOMAIN pend \ {Ev.t})
                 q == pend[Ev.t]
             IN IF q.op.op # "backup" THEN rest
                ELSE [t \in DOMAIN rest |-> [rest[t] EXCEPT !.over = @ \cup {q.seen}]]
  /\ Same({})

\* nothing in progress: the metrics
CObs ==
  /\ Is("obs") /\ pend = Empty
  /\ Chk("metrics", Ev.seeds = Seeds /\ Ev.leeches = Leeches /\ Ev.ips = Cardinality(Addresses))
  /\ Chk("hashes", HashesOk(Ev.hashes))
  /\ Same({}) /\ Keeps

\* one of many saves under traffic failed
Unsaved == Is("unsaved") /\ Chk("backup", FALSE) /\ Same({}) /\ Keeps

\* a start from a backup of just this
CRestart == Is("restart") /\ pend = Empty /\ Same({}) /\ Keeps

TNext == (((Reset \/ Adv) /\ Keeps) \/ Call \/ Internal \/ Ret \/ CObs \/ Unsaved \/ CRestart) /\ Mark

TSpec == CInit /\ [][TNext]_cvars
=============================================================================
