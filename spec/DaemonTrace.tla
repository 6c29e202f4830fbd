---------------------------- MODULE DaemonTrace ----------------------------
(***************************************************************************)
(* The tracker as a process: started from what is on disk, serving, told   *)
(* to save or to stop by signals, killed, and cut short during a save.     *)
(*                                                                         *)
(* A save reads torrents and connections one after another; requests that  *)
(* come in meanwhile may or may not be in it.  `win` holds the states the  *)
(* running save may have seen.                                             *)
(***************************************************************************)
EXTENDS Server

VARIABLES
  mode,  \* what this process was started with: [up, http, udp, file]
  win    \* states since the save began: a set of [sw, cn], empty if none is running

dvars == <<mode, win>>
Down == [up |-> FALSE, http |-> "none", udp |-> FALSE, file |-> FALSE]

Same2(S) == Same(S) /\ UNCHANGED dvars
\* a request may fall into a running save
Seen == /\ mode' = mode
        /\ win' = IF win = {} THEN {} ELSE win \cup {[sw |-> swarm', cn |-> conns']}

DReset == Reset /\ mode' = Down /\ win' = {}

\* the driver wrote a backup holding these
Preload ==
  /\ Is("preload")
  /\ saved' = [swarm |-> Empty,
               crowd |-> [h \in {Ev.crowd[k].h : k \in 1..Len(Ev.crowd)} |->
                            LET k == CHOOSE j \in 1..Len(Ev.crowd) : Ev.crowd[j].h = h
                            IN [c |-> Ev.crowd[k].c, i |-> Ev.crowd[k].i, seen |-> 0]]]
  /\ Same2({"saved"})

Start ==
  /\ Is("start")
  /\ ~mode.up
  /\ Chk("start", Ev.ok)
  /\ mode' = [up |-> Ev.ok, http |-> Ev.http, udp |-> Ev.udp, file |-> Ev.file]
  /\ IF Ev.file THEN DoRestart ELSE swarm' = Empty /\ crowd' = Empty
  /\ conns' = IF Ev.udp THEN savedConns ELSE Empty
  /\ ctr' = ZeroCtr
  /\ win' = {}
  /\ Same({"swarm", "crowd", "conns", "ctr"})

DUdp == mode.up /\ mode.udp /\ Is("udp") /\ Datagram(<<Ev.ip, Ev.port>>, Ev.data, Ev.replies) /\ Seen
DHttp == mode.up /\ mode.http = "enabled" /\ Is("http") /\ Chk("closed", Ev.closed) /\ Request(Ev.ip, Ev.data, Ev.reply, Ev.sha, Ev.doc) /\ Seen

\* info mode: a web server that tells clients to come back tomorrow
OneDay == [t |-> "i", n |-> <<56, 54, 52, 48, 48>>]
Info ==
  /\ Is("info") /\ mode.up /\ mode.http = "info"
  /\ Chk("info",
       CASE Ev.path = W!S_announce ->
              /\ Ev.status = 200
              /\ LET b == W!Bdec(Ev.body) IN W!IsDict(b) /\ W!Keys(b) = {W!B_interval} /\ W!At(b, W!B_interval) = OneDay
         [] Ev.path \in {W!S_scrape, W!S_heartbeat} -> Ev.status = 200 /\ Ev.body = <<>>
         [] OTHER -> TRUE)
  /\ Chk("files",
       CASE Ev.path \in {W!S_announce, W!S_scrape, W!S_heartbeat, W!S_stats} -> TRUE
         [] FileShas(Ev.path) # {} -> Ev.status = 200 /\ Ev.sha \in FileShas(Ev.path)
         \* whatever else is asked for, nothing but a public page is ever sent
         [] OTHER -> Ev.status \in {301, 307, 308, 404} \/ (Ev.status = 200 /\ Ev.sha \in FileShas(<<47>>)))
  /\ Same2({})

\* what a save that saw these states may have written: each torrent as it was
\* at some instant
RECURSIVE PerKey(_, _, _)
PerKey(S, at(_, _), keys) ==
  IF keys = {} THEN {Empty}
  ELSE LET k == CHOOSE x \in keys : TRUE
           vs == {at(s, k) : s \in S}
           rest == PerKey(S, at, keys \ {k})
       IN {Put(f, k, v) : f \in rest, v \in vs}
SwarmAt(s, h) == PeersOf(s.sw, h)
Written(S) == PerKey(S, SwarmAt, UNION {DOMAIN s.sw : s \in S})
None == [none |-> TRUE]
ConnAt(s, x) == IF x \in DOMAIN s.cn THEN s.cn[x] ELSE None
WrittenConns(S) ==
  {[x \in {y \in DOMAIN f : f[y] # None} |-> f[x]] : f \in PerKey(S, ConnAt, UNION {DOMAIN s.cn : s \in S})}
Now1 == {[sw |-> swarm, cn |-> conns]}

\* nodb: the database cannot be written this time; that is no reason not to
\* write the connections
SaveWith(S) ==
  /\ IF mode.file /\ ~Ev.nodb THEN \E f \in Written(S) : saved' = [swarm |-> f, crowd |-> crowd]
     ELSE saved' = saved
  /\ IF mode.udp THEN \E c \in WrittenConns(S) : savedConns' = c
     ELSE savedConns' = savedConns

Usr1 == Is("usr1") /\ mode.up /\ win' = Now1 /\ mode' = mode /\ Same({})
\* the files have been written and the process is still there
Saved ==
  /\ Is("saved")
  /\ Chk("signals", Ev.ok /\ ~Ev.dead)
  /\ SaveWith(IF win = {} THEN Now1 ELSE win)
  /\ win' = {} /\ mode' = mode
  /\ Same({"saved", "savedConns"})

\* an announce to a process told to stop some time ago: if it was acknowledged
\* it has to be in what the process saves
Late ==
  /\ Is("late") /\ mode.up
  /\ LET put(sw) == Announced(sw, Ev.h, Ev.p, Ev.ip, Ev.port, Ev.c)
         all == win \cup Now1
         with == {[s EXCEPT !.sw = put(s.sw)] : s \in all}
     IN IF Ev.acked THEN swarm' = put(swarm) /\ win' = with
        ELSE swarm' = swarm /\ win' = all \cup with
  /\ mode' = mode
  /\ Same({"swarm"})

\* stopped by a signal: saved, gone, and successfully so
Exit ==
  /\ Is("exit") /\ mode.up
  /\ Chk("signals", (Ev.code = 0 \/ (Ev.nodb /\ Ev.code # -1)) /\ ~Ev.serving)
  /\ SaveWith(win \cup Now1)
  /\ mode' = Down /\ win' = {}
  /\ Same({"saved", "savedConns"})

Kill == Is("kill") /\ mode' = Down /\ win' = {} /\ Same({})

\* A start under a setting, or from a backup, that can't be used: the process
\* ends as one that failed, before anyone could talk to it, and leaves all files
\* as they are.
GaveUp == Ev.ended /\ Ev.code # 0 /\ Ev.socks = 0 /\ Ev.same
NoStart == Is("refused") /\ ~mode.up /\ Chk("refused", ~Ev.up /\ GaveUp) /\ mode' = [mode EXCEPT !.up = Ev.up] /\ win' = {} /\ Same({})

\* A start from a backup that was cut short, has something behind it or has an
\* address of a length no address has: refused, or it has whole torrents only (all of them if nothing is missing).
Parts(sw) == {Only(sw, T) : T \in SUBSET (DOMAIN sw)}
Damaged ==
  /\ Is("damaged") /\ ~mode.up
  /\ win' = {}
  /\ IF Ev.up
     THEN /\ mode' = [up |-> TRUE, http |-> Ev.http, udp |-> Ev.udp, file |-> TRUE]
          /\ \E sw \in IF Ev.what \in {"cut", "address"} THEN Parts(saved.swarm) ELSE {saved.swarm} : swarm' = sw
          /\ crowd' = Empty
          /\ conns' = IF Ev.udp THEN savedConns ELSE Empty
          /\ ctr' = ZeroCtr
          /\ Same({"swarm", "crowd", "conns", "ctr"})
     ELSE Chk("refused", GaveUp) /\ mode' = mode /\ Same({})

\* told to stop before it served: what was saved before is still there
Stillborn == Is("stillborn") /\ ~mode.up /\ Chk("signals", Ev.gone) /\ Same2({})

\* at least one scheduled save began and ended since the last request
Periodic ==
  /\ Is("periodic")
  /\ Chk("periodic", Ev.saves >= 2)
  /\ saved' = [swarm |-> swarm, crowd |-> crowd]
  /\ Same2({"saved"})

\* A save that may be cut short by a kill or by failing calls: all of it or
\* nothing of it is found later.  The connections may be gone.
Doomed == Is("doomed") /\ mode.up /\ win' = Now1 /\ mode' = mode /\ Same({})
Cut ==
  /\ Is("cut")
  /\ \/ \E f \in Written(win) : saved' = [swarm |-> f, crowd |-> crowd]
     \/ saved' = saved
  /\ savedConns' = Empty
  /\ mode' = Down /\ win' = {}
  /\ Same({"saved", "savedConns"})

DNext == (DReset \/ Preload \/ Start \/ DUdp \/ DHttp \/ Info \/ Usr1 \/ Saved \/ Late \/ Exit \/ Stillborn \/ NoStart \/ Damaged \/ Kill \/ Periodic \/ Doomed \/ Cut) /\ Mark

TSpec == TInit /\ mode = Down /\ win = {} /\ [][DNext]_<<vars, dvars, l>>
=============================================================================
