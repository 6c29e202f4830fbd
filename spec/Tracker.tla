------------------------------ MODULE Tracker ------------------------------
(***************************************************************************)
(* The trakx tracker as one state machine: a clock, the swarms, the UDP    *)
(* connections, the request counters, and the last backup.  Requests are   *)
(* actions; what a reply may say is a predicate over the state.            *)
(*                                                                         *)
(* Torrents, peers and addresses are names (`Dict` says which bytes a name *)
(* stands for) or, in traces of the servers, byte strings.  Time is in     *)
(* seconds.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANT Dict      \* what names stand for: [ips |-> name -> bytes, ...]; without ips, addresses are their bytes

VARIABLES
  now,        \* seconds since the start
  cfg,        \* the configuration in force (record)
  swarm,      \* torrent -> (peer -> [ip, port, c (seed?), seen])
  crowd,      \* torrent -> [c, i, seen]: anonymous peers sharing one address (in a torrent each, if `many`)
  conns,      \* source -> [id (8 bytes), t]
  ctr,        \* request counters
  saved,      \* the last completed backup of the swarms (or NoBackup)
  savedConns  \* the last completed save of the connections

vars == <<now, cfg, swarm, crowd, conns, ctr, saved, savedConns>>

NoBackup == [none |-> TRUE]  \* distinct from every backup
Empty == [x \in {} |-> x]
ZeroCtr == [hits |-> 0, connects |-> 0, announces |-> 0, scrapes |-> 0, cerr |-> 0, serr |-> 0]
Least(a, b) == IF a < b THEN a ELSE b
Only(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Put(f, x, v) == (x :> v) @@ f

(***************************************************************************)
(* Swarms                                                                  *)
(***************************************************************************)
PeersOf(sw, h) == IF h \in DOMAIN sw THEN sw[h] ELSE Empty
Peers(h) == PeersOf(swarm, h)
Members(h) == DOMAIN Peers(h)
NoCrowd == [c |-> 0, i |-> 0, seen |-> 0]
Crowd(h) == IF h \in DOMAIN crowd THEN crowd[h] ELSE NoCrowd

CompleteIn(sw, cr, h) ==
  Cardinality({p \in DOMAIN PeersOf(sw, h) : PeersOf(sw, h)[p].c})
    + (IF h \in DOMAIN cr THEN cr[h].c ELSE 0)
IncompleteIn(sw, cr, h) ==
  Cardinality({p \in DOMAIN PeersOf(sw, h) : ~PeersOf(sw, h)[p].c})
    + (IF h \in DOMAIN cr THEN cr[h].i ELSE 0)
Complete(h) == CompleteIn(swarm, crowd, h)
Incomplete(h) == IncompleteIn(swarm, crowd, h)

SumOver(S, f(_)) == MapThenSumSet(f, S)

Torrents == (DOMAIN swarm) \cup (DOMAIN crowd)
Seeds == SumOver(Torrents, Complete)
Leeches == SumOver(Torrents, Incomplete)
CrowdIP == IF "ips" \in DOMAIN Dict THEN "crowd"
           ELSE IF "crowdip" \in DOMAIN cfg THEN cfg.crowdip ELSE <<100, 64, 0, 1>>
Addresses == UNION { {Peers(h)[p].ip : p \in Members(h)} : h \in DOMAIN swarm }
             \cup (IF \E h \in DOMAIN crowd : crowd[h].c + crowd[h].i > 0 THEN {CrowdIP} ELSE {})
NonEmpty == {h \in Torrents : Members(h) # {} \/ Crowd(h).c + Crowd(h).i > 0}
\* a crowd marked `many` is spread over as many torrents as it has peers
Beyond == SumOver({h \in DOMAIN crowd : "many" \in DOMAIN crowd[h]}, LAMBDA h : crowd[h].c + crowd[h].i - 1)
\* how many torrents are said to be tracked: all that have peers, some that a pass has yet to find empty
HashesOk(n) == Cardinality(NonEmpty) + Beyond <= n /\ n <= Cardinality(Torrents) + Beyond

\* A (re-)announce that is not a stop: the peer's entry is what it just said.
Announced(sw, h, p, ip, port, c) ==
  Put(sw, h, Put(PeersOf(sw, h), p, [ip |-> ip, port |-> port, c |-> c, seen |-> now]))
DoAnnounce(h, p, ip, port, c) == swarm' = Announced(swarm, h, p, ip, port, c)

\* A stop: the peer leaves; other peers and torrents are untouched.
Stopped(sw, h, p) ==
  IF h \in DOMAIN sw THEN [sw EXCEPT ![h] = Only(@, (DOMAIN @) \ {p})] ELSE sw
DoStop(h, p) == swarm' = Stopped(swarm, h, p)

Fresh(seen, t) == t - seen <= cfg.expiry

\* An expiry pass at time t: exactly the stale peers go, and with them the
\* torrents left empty.
TrimmedAt(sw, cr, t) ==
  LET live == [h \in DOMAIN sw |-> Only(sw[h], {p \in DOMAIN sw[h] : Fresh(sw[h][p].seen, t)})]
      crl == {h \in DOMAIN cr : cr[h].c + cr[h].i > 0 /\ Fresh(cr[h].seen, t)}
  IN Only(live, {h \in DOMAIN sw : DOMAIN live[h] # {} \/ h \in crl})
CrowdTrimmedAt(cr, t) == Only(cr, {h \in DOMAIN cr : cr[h].c + cr[h].i > 0 /\ Fresh(cr[h].seen, t)})
DoTrim == swarm' = TrimmedAt(swarm, crowd, now) /\ crowd' = CrowdTrimmedAt(crowd, now)

(***************************************************************************)
(* Peer lists                                                              *)
(***************************************************************************)
AddrBytes(ip) == IF "ips" \in DOMAIN Dict THEN Dict.ips[ip] ELSE ip
IsV4(ip) == Len(AddrBytes(ip)) = 4
Family(ip) == IF IsV4(ip) THEN 4 ELSE 6
OfFamily(h, f) == {p \in Members(h) : Family(Peers(h)[p].ip) = f}
Endpoint(r) == [ip |-> r.ip, port |-> r.port]
EndpointBytes(r) == AddrBytes(r.ip) \o <<r.port \div 256, r.port % 256>>

\* `list` is a sequence of observed entries, each the image under `val` of a
\* member from M: current members only, each at most once, and as many as the
\* bound allows.
ListOver(M, val(_), list, bound) ==
  LET vals == {val(p) : p \in M}
      got == {list[i] : i \in 1..Len(list)}
  IN
  /\ Len(list) = Least(bound, Cardinality(M))
  /\ got \subseteq vals
  /\ \/ Cardinality(got) = Len(list)
     \/ \A x \in got :
          Cardinality({j \in 1..Len(list) : list[j] = x}) <= Cardinality({p \in M : val(p) = x})

\* The crowd's peers have no names: of them only the number and the address
\* are judged. They are in the packed lists of its family, and in the plain
\* list (f = 0).
HasCrowd(h) == Crowd(h).c + Crowd(h).i > 0
CrowdFamily == IF "ips" \in DOMAIN Dict THEN 4 ELSE IF Len(CrowdIP) = 4 THEN 4 ELSE 6
InCrowd(x, f) == IF f = 0 \/ "ips" \in DOMAIN Dict THEN x.ip = CrowdIP ELSE SubSeq(x, 1, Len(x) - 2) = CrowdIP
ListOk(h, M, f, val(_), list, bound) ==
  IF ~HasCrowd(h) \/ f \notin {0, CrowdFamily} THEN ListOver(M, val, list, bound)
  ELSE LET vals == {val(p) : p \in M}
           n == Crowd(h).c + Crowd(h).i
       IN
       /\ Len(list) = Least(bound, Cardinality(M) + n)
       /\ Cardinality({j \in 1..Len(list) : list[j] \notin vals}) <= n
       /\ {j \in 1..Len(list) : list[j] \notin vals /\ ~InCrowd(list[j], f)} = {}
       /\ \A x \in vals : Cardinality({j \in 1..Len(list) : list[j] = x}) <= Cardinality({p \in M : val(p) = x})

EntryPid(h, p) == [p |-> p, ip |-> Peers(h)[p].ip, port |-> Peers(h)[p].port]
EntryNoPid(h, p) == [p |-> "-", ip |-> Peers(h)[p].ip, port |-> Peers(h)[p].port]

\* non-compact list: all families together
PlainListOk(h, list, bound, nopid) ==
  LET v(p) == IF nopid THEN EntryNoPid(h, p) ELSE EntryPid(h, p)
  IN ListOk(h, Members(h), 0, v, list, bound)
\* compact lists: one per family
CompactOk(h, f, list, bound) ==
  LET v(p) == EntryNoPid(h, p) IN ListOk(h, OfFamily(h, f), f, v, list, bound)
CompactBytesOk(h, f, chunks, bound) ==
  LET v(p) == EndpointBytes(Peers(h)[p]) IN ListOk(h, OfFamily(h, f), f, v, chunks, bound)

\* The number of peers a client gets: what it asked for, the default if it did
\* not say, at most the limit.
Bound(asked, has) == Least(IF has THEN asked ELSE cfg.numdef, cfg.numlim)

IntervalOk(iv) == cfg.base <= iv /\ iv <= cfg.base + cfg.fuzz

(***************************************************************************)
(* UDP connections                                                         *)
(***************************************************************************)
DoConnect(src, id) == conns' = Put(conns, src, [id |-> id, t |-> now])
ConnValid(src, id) == src \in DOMAIN conns /\ conns[src].id = id
ConnTrimmedAt(cs, t) == Only(cs, {s \in DOMAIN cs : t - cs[s].t <= cfg.connexpiry})
\* (a batch of n anonymous sources counts as one in the function)
Connections == SumOver(DOMAIN conns, LAMBDA s : IF "n" \in DOMAIN conns[s] THEN conns[s].n ELSE 1)
DoConnTrim == conns' = ConnTrimmedAt(conns, now)

(***************************************************************************)
(* Backup and restart                                                      *)
(***************************************************************************)
DoBackup == saved' = [swarm |-> swarm, crowd |-> crowd]
DoSaveConns == savedConns' = conns
DoRestart == /\ swarm' = IF saved = NoBackup THEN Empty ELSE saved.swarm
             /\ crowd' = IF saved = NoBackup THEN Empty ELSE saved.crowd

=============================================================================
