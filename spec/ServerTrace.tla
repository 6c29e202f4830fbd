---------------------------- MODULE ServerTrace ----------------------------
(***************************************************************************)
(* Accepts a trace of datagrams and HTTP requests, their replies, and      *)
(* looks into the tracker in between, iff it is a behaviour of Server.     *)
(***************************************************************************)
EXTENDS Server

Udp == Is("udp") /\ Datagram(<<Ev.ip, Ev.port>>, Ev.data, Ev.replies)
Http == Is("http") /\ Chk("closed", Ev.closed) /\ Request(Ev.ip, Ev.data, Ev.reply, Ev.sha, Ev.doc)

\* a client that never completes a request is dropped within the time stated
Stall == Is("stall") /\ Chk("stall", Ev.ms <= Ev.limit) /\ Same({})
\* datagrams nobody asked for
Stray == Is("stray") /\ Chk("udp", Ev.replies = <<>>) /\ Same({})

AdvSrv ==
  /\ Is("advtrim")
  /\ LET t == now + Ev.d IN
     /\ Assert(cfg.trim = 0 \/ \A h \in DOMAIN swarm : \A p \in Members(h) : SettledAt(Peers(h)[p].seen, t, cfg.expiry, cfg.trim),
               "driver error: ambiguous observation point")
     /\ Assert(\A s \in DOMAIN conns : SettledAt(conns[s].t, t, cfg.connexpiry, cfg.conntrim),
               "driver error: ambiguous observation point")
     \* (a tracker that was away for long has to have had time for a pass)
     /\ Assert(\A s \in DOMAIN conns : now - conns[s].t <= cfg.connexpiry \/ Ev.d >= cfg.conntrim,
               "driver error: ambiguous observation point")
     /\ now' = t
     /\ swarm' = IF cfg.trim = 0 THEN swarm ELSE TrimmedAt(swarm, crowd, t)
     /\ crowd' = IF cfg.trim = 0 THEN crowd ELSE CrowdTrimmedAt(crowd, t)
     /\ conns' = ConnTrimmedAt(conns, t)
  /\ Same({"now", "swarm", "crowd", "conns"})
Trim == Is("trim") /\ DoTrim /\ Same({"swarm", "crowd"})

\* looks inside
DumpEntry(x) == [p |-> x.p, ip |-> x.ip, port |-> x.port]
Dump ==
  /\ Is("dump")
  /\ Chk("members", LET es == [i \in 1..Len(Ev.peers) |-> DumpEntry(Ev.peers[i])]
                        v(p) == [p |-> p, ip |-> Peers(Ev.h)[p].ip, port |-> Peers(Ev.h)[p].port]
                    IN ListOk(Ev.h, Members(Ev.h), 0, v, es, 1000000))
  /\ Chk("status", Ev.c = Complete(Ev.h) /\ Ev.i = Incomplete(Ev.h))
  /\ Same({})
Obs ==
  /\ Is("obs")
  /\ Chk("metrics", Ev.seeds = Seeds /\ Ev.leeches = Leeches /\ Ev.ips = Cardinality(Addresses))
  /\ Chk("hashes", HashesOk(Ev.hashes))
  /\ Chk("conns", Ev.conns = Connections)
  /\ Same({})
Ctr ==
  /\ Is("ctr")
  /\ Chk("ctr", \A k \in DOMAIN ctr : Ev[k] = ctr[k])
  /\ Same({})
\* the counters as published at the end of an interval: what was counted in it,
\* and four of them start again
Publish ==
  /\ Is("publish")
  /\ Chk("ctr", \A k \in DOMAIN ctr : Ev[k] = ctr[k])
  /\ Chk("gauges", /\ Ev.seeds = Seeds /\ Ev.leeches = Leeches /\ Ev.peers = Seeds + Leeches
                   /\ Ev.ips = Cardinality(Addresses) /\ Ev.conns = Connections
                   /\ HashesOk(Ev.hashes))
  /\ ctr' = [ZeroCtr EXCEPT !.cerr = ctr.cerr, !.serr = ctr.serr]
  /\ Same({"ctr"})
\* everything counted so far, published in part
Total ==
  /\ Is("total")
  /\ Chk("ctr", \A k \in DOMAIN ctr : Ev.pub[k] + Ev.left[k] = ctr[k])
  /\ Same({})
\* how intervals spread over a sample of n announces
Spread ==
  /\ Is("spread")
  /\ Chk("interval", IF cfg.fuzz = 0 THEN Ev.lo = cfg.base /\ Ev.hi = cfg.base
                     ELSE /\ Ev.lo >= cfg.base /\ Ev.hi <= cfg.base + cfg.fuzz
                          \* 400 draws miss a fifth of the range at either end once in 10^38
                          /\ (cfg.fuzz > 4 /\ Ev.n >= 400) =>
                               (Ev.lo <= cfg.base + cfg.fuzz \div 5 + 1 /\ Ev.hi >= cfg.base + (cfg.fuzz * 4) \div 5 - 1))
  /\ Same({})

Backup == Is("backup") /\ Chk("backup", Ev.ok) /\ DoBackup /\ Same({"saved"})
SaveConns == Is("saveconns") /\ Chk("conns", Ev.ok) /\ DoSaveConns /\ Same({"savedConns"})
\* the connection file is damaged or removed behind the tracker's back
Corrupt == Is("corrupt") /\ savedConns' = Empty /\ Same({"savedConns"})
Restart ==
  /\ Is("restart")
  /\ Chk("restart", Ev.ok)
  /\ DoRestart /\ conns' = savedConns /\ ctr' = ZeroCtr
  /\ Same({"swarm", "crowd", "conns", "ctr"})

\* many sources, each its own, connect: batch k of them; all got an id of its own
ConnJoin ==
  /\ Is("connjoin")
  /\ Chk("udp", Ev.ok = Ev.n)
  /\ Chk("gate", Ev.distinct)
  /\ conns' = Put(conns, <<<<>>, Ev.k>>, [id |-> <<>>, t |-> now, n |-> Ev.n])
  /\ ctr' = [ctr EXCEPT !.hits = @ + Ev.n, !.connects = @ + Ev.n]
  /\ Same({"conns", "ctr"})
\* n sources of that batch scrape, with their own ids or with those of others in it
ConnUse ==
  /\ Is("connuse")
  /\ LET good == ~cfg.validate \/ (~Ev.swapped /\ <<<<>>, Ev.k>> \in DOMAIN conns)
         g == IF good THEN Ev.n ELSE 0 IN
     /\ Chk("gate", Ev.good = g /\ Ev.refused = Ev.n - g)
     /\ ctr' = [ctr EXCEPT !.hits = @ + Ev.n, !.scrapes = @ + g, !.cerr = @ + Ev.n - g]
  /\ Same({"ctr"})

TNext == (Reset \/ Adv \/ Udp \/ Http \/ Stall \/ Stray \/ AdvSrv \/ Trim \/ Dump \/ Obs \/ Ctr \/ Publish \/ Total
          \/ Spread \/ Backup \/ ConnJoin \/ ConnUse \/ CrowdJoin \/ CrowdFlip \/ CrowdLeave \/ SaveConns \/ Corrupt \/ Restart) /\ Mark

TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
