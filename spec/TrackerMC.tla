----------------------------- MODULE TrackerMC -----------------------------
(***************************************************************************)
(* The database part of Tracker over small sets, for exhaustive checking   *)
(* and for generating stimuli: `act` is the operation just performed, as   *)
(* the JSON object the driver reads.  The clock stands still at 0 and time *)
(* passes by making everything older, so that the state space is finite.   *)
(* `last` is history: the latest announce of each peer.                    *)
(***************************************************************************)
EXTENDS Tracker

CONSTANTS Hs, Ps, Vals, Expiry, Steps, WithBackup

VARIABLES act, last, lastSaved

mcvars == <<vars, act, last, lastSaved>>

\* Vals: the address/port pairs peers announce with
Gone == [gone |-> TRUE]
J(e) == "{\"e\":\"" \o e \o "\""
JF(k, v) == ",\"" \o k \o "\":\"" \o v \o "\""
JN(k, v) == ",\"" \o k \o "\":" \o ToString(v)

MInit ==
  /\ now = 0 /\ cfg = [expiry |-> Expiry, numdef |-> 3, numlim |-> 5]
  /\ swarm = Empty /\ crowd = Empty /\ conns = Empty /\ ctr = ZeroCtr
  /\ saved = NoBackup /\ savedConns = Empty
  /\ act = "{\"e\":\"start\"}"
  /\ last = [x \in Hs \X Ps |-> Gone]
  /\ lastSaved = [x \in Hs \X Ps |-> Gone]

Rest == UNCHANGED <<now, cfg, crowd, conns, ctr, savedConns>>

Save(h, p, v, c) ==
  /\ DoAnnounce(h, p, v.ip, v.port, c)
  /\ last' = [last EXCEPT ![<<h, p>>] = [v |-> v, c |-> c, age |-> 0]]
  /\ act' = J("save") \o JF("h", h) \o JF("p", p) \o JF("ip", v.ip) \o JN("port", v.port)
              \o ",\"c\":" \o (IF c THEN "true" ELSE "false") \o "}"
  /\ Rest /\ UNCHANGED <<saved, lastSaved>>

Drop(h, p) ==
  /\ DoStop(h, p)
  /\ last' = [last EXCEPT ![<<h, p>>] = Gone]
  /\ act' = J("drop") \o JF("h", h) \o JF("p", p) \o "}"
  /\ Rest /\ UNCHANGED <<saved, lastSaved>>

Trim ==
  /\ DoTrim
  /\ last' = [x \in DOMAIN last |->
        IF last[x] # Gone /\ last[x].age > Expiry THEN Gone ELSE last[x]]
  /\ act' = J("trim") \o "}"
  /\ UNCHANGED <<now, cfg, conns, ctr, savedConns, saved, lastSaved>>

\* d seconds pass; ages beyond the expiry are all alike
Older(seen, d) == LET s == seen - d IN IF s < -(Expiry + 1) THEN -(Expiry + 1) ELSE s
AgeSwarm(sw, d) == [h \in DOMAIN sw |-> [p \in DOMAIN sw[h] |-> [sw[h][p] EXCEPT !.seen = Older(@, d)]]]
AgeLast(la, d) == [x \in DOMAIN la |-> IF la[x] = Gone THEN Gone ELSE [la[x] EXCEPT !.age = -Older(-@, d)]]
Adv(d) ==
  /\ \E h \in DOMAIN swarm : Members(h) # {}
  /\ swarm' = AgeSwarm(swarm, d)
  /\ last' = AgeLast(last, d)
  /\ saved' = IF saved = NoBackup THEN NoBackup ELSE [saved EXCEPT !.swarm = AgeSwarm(@, d)]
  /\ lastSaved' = AgeLast(lastSaved, d)
  /\ act' = J("adv") \o JN("d", d) \o "}"
  /\ Rest

Backup ==
  /\ WithBackup
  /\ DoBackup /\ lastSaved' = last
  /\ act' = J("backup") \o "}"
  /\ UNCHANGED <<swarm, last>> /\ Rest
Restart ==
  /\ WithBackup
  /\ DoRestart
  /\ last' = lastSaved
  /\ act' = J("restart") \o "}"
  /\ UNCHANGED <<now, cfg, conns, ctr, savedConns, saved, lastSaved>>

MNext ==
  \/ \E h \in Hs, p \in Ps, v \in Vals, c \in BOOLEAN : Save(h, p, v, c)
  \/ \E h \in Hs, p \in Ps : Drop(h, p)
  \/ Trim
  \/ \E d \in Steps : Adv(d)
  \/ Backup \/ Restart

MSpec == MInit /\ [][MNext]_mcvars

----------------------------------------------------------------------------
(* C01: membership is the history's                                        *)
C01 ==
  \A h \in Hs, p \in Ps :
    LET e == last[<<h, p>>] IN
    /\ (p \in Members(h)) <=> (e # Gone)
    /\ e # Gone => Peers(h)[p] = [ip |-> e.v.ip, port |-> e.v.port, c |-> e.c, seen |-> -e.age]

(* C02: counts partition the members                                       *)
C02 == \A h \in Hs :
  /\ Complete(h) = Cardinality({p \in Ps : last[<<h, p>>] # Gone /\ last[<<h, p>>].c})
  /\ Complete(h) + Incomplete(h) = Cardinality(Members(h))

(* C04: a list that ListOk accepts exists for every bound, and no list with a
   stranger, a duplicate endpoint claim or a missing member is accepted     *)
ListsOf(h, n) == {EntryPid(h, p) : p \in Members(h)}
C04 == \A h \in Hs : \A n \in 0..Cardinality(Ps) + 1 :
  LET full == SetToSeq(ListsOf(h, n))
      lst == SubSeq(full, 1, Least(n, Len(full)))
  IN /\ PlainListOk(h, lst, n, FALSE)
     /\ Len(lst) > 0 => ~PlainListOk(h, SubSeq(lst, 1, Len(lst) - 1), n, FALSE)
     /\ Len(lst) > 0 => ~PlainListOk(h, Append(SubSeq(lst, 1, Len(lst) - 1), [p |-> "x", ip |-> "i1", port |-> 0]), n, FALSE)
     /\ Len(lst) > 1 => ~PlainListOk(h, [lst EXCEPT ![1] = lst[2]], n, FALSE)

(* C05: an expiry pass leaves no stale peer, removes no fresh one          *)
C05 == [][act' = J("trim") \o "}" =>
          \A h \in Hs, p \in Ps :
             (p \in DOMAIN PeersOf(swarm', h)) <=>
             (p \in Members(h) /\ 0 - Peers(h)[p].seen <= Expiry)]_mcvars

(* C06: totals *)
C06 == /\ Seeds = Cardinality({x \in DOMAIN last : last[x] # Gone /\ last[x].c})
       /\ Leeches = Cardinality({x \in DOMAIN last : last[x] # Gone /\ ~last[x].c})
       /\ Addresses = {last[x].v.ip : x \in {y \in DOMAIN last : last[y] # Gone}}

(* one torrent's operations leave the others alone *)
Isolation == [][\A h \in Hs : (\E g \in Hs \ {h} : \E p \in Ps : last'[<<g, p>>] # last[<<g, p>>]
                                /\ act' # J("trim") \o "}" /\ act' # J("restart") \o "}")
                     /\ ~(\E d \in Steps : act' = J("adv") \o JN("d", d) \o "}")
                   => PeersOf(swarm', h) = Peers(h)]_mcvars

MCVals == {[ip |-> "i1", port |-> 6881], [ip |-> "j1", port |-> 255]}
MCVals1 == {[ip |-> "i1", port |-> 6881]}
MCDict == [ips |-> [x \in {"i1", "j1"} |-> IF x = "i1" THEN <<127, 0, 0, 1>> ELSE <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>]]
=============================================================================
