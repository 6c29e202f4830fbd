---------------------------- MODULE TrackerTrace ----------------------------
(***************************************************************************)
(* Accepts a trace recorded from the real tracker iff it is a behaviour of *)
(* Tracker, looking at the observations named in Aspects.                  *)
(***************************************************************************)
EXTENDS TraceBase

----------------------------------------------------------------------------
\* database API
DbSave == /\ Is("save") /\ DoAnnounce(Ev.h, Ev.p, Ev.ip, Ev.port, Ev.c) /\ Same({"swarm"})
DbDrop == /\ Is("drop") /\ DoStop(Ev.h, Ev.p) /\ Same({"swarm"})
DbTrim == /\ Is("trim") /\ DoTrim /\ Same({"swarm", "crowd"})

\* Time passes with expiry passes running every cfg.trim seconds.  The driver
\* looks only at instants where no peer is between `expiry` and
\* `expiry + trim` old, where the specification leaves the pass's phase open.
Settled(seen, t) == SettledAt(seen, t, cfg.expiry, cfg.trim)
AdvTrim ==
  /\ Is("advtrim")
  /\ LET t == now + Ev.d IN
     /\ Assert(\A h \in DOMAIN swarm : \A p \in Members(h) : Settled(Peers(h)[p].seen, t),
               "driver error: ambiguous observation point")
     /\ now' = t
     \* empty torrents may or may not be gone yet; they carry no peers either way
     /\ swarm' = LET s == TrimmedAt(swarm, crowd, t) IN
                  IF Ev.d >= cfg.trim THEN s
                  ELSE [h \in DOMAIN swarm |-> IF h \in DOMAIN s THEN s[h] ELSE Empty]
     /\ crowd' = CrowdTrimmedAt(crowd, t)
  /\ Same({"now", "swarm", "crowd"})

DbStats == /\ Is("stats")
           /\ Chk("counts", Ev.c = Complete(Ev.h) /\ Ev.i = Incomplete(Ev.h))
           /\ Same({})
DbList == /\ Is("list")
          /\ Chk("lists", PlainListOk(Ev.h, Ev.peers, Ev.n, Ev.nopid))
          /\ Same({})
DbListB == /\ Is("listb")
           /\ Chk("lists", /\ CompactOk(Ev.h, 4, Ev.v4, Least(Ev.n, cfg.numlim))
                           /\ CompactOk(Ev.h, 6, Ev.v6, Least(Ev.n, cfg.numlim)))
           /\ Same({})
\* the whole membership of a torrent, as an unbounded list
DbDump == /\ Is("dump")
          /\ Chk("members", PlainListOk(Ev.h, Ev.peers, 1000000, FALSE))
          /\ Same({})
DbObs == /\ Is("obs")
         /\ Chk("metrics", /\ Ev.seeds = Seeds /\ Ev.leeches = Leeches
                           /\ Ev.ips = Cardinality(Addresses))
         /\ Chk("hashes", HashesOk(Ev.hashes))
         /\ Same({})

\* backups
Backup == Is("backup") /\ Chk("backup", Ev.ok) /\ DoBackup /\ Same({"saved"})
\* no change for at least one backup interval: the periodic backup holds everything
AutoBackup == Is("autobackup") /\ DoBackup /\ Same({"saved"})
Restart == /\ Is("restart") /\ Chk("restart", Ev.ok) /\ DoRestart /\ Same({"swarm", "crowd"})

DbNext == DbSave \/ DbDrop \/ DbTrim \/ AdvTrim \/ DbStats \/ DbList \/ DbListB \/ DbDump
          \/ DbObs \/ Throng \/ ThrongLook \/ CrowdJoin \/ CrowdFlip \/ CrowdLeave \/ Backup \/ AutoBackup \/ Restart

TNext == (Reset \/ Adv \/ DbNext) /\ Mark

TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
