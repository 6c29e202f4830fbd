----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading a recorded trace (ndjson, first line: the dictionary).  Specs   *)
(* that extend this define TNext; a trace is accepted iff some behaviour   *)
(* consumes all its events.                                                *)
(***************************************************************************)
EXTENDS Tracker, Json, IOUtils

CONSTANT Aspects

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
TraceDict == Trace[1]

VARIABLE l

A(x) == x \in Aspects
\* the client lost the connection with more of the reply under way than it
\* is sure to have received: the reply is not judged
Cutoff == "rst" \in DOMAIN Trace[l] /\ Trace[l].rst /\ Len(Trace[l].data) > 2600
Chk(x, ok) == (A(x) /\ ~Cutoff) => ok

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1

Keep(S) == /\ ("now" \in S => now' = now) /\ ("cfg" \in S => cfg' = cfg)
           /\ ("swarm" \in S => swarm' = swarm) /\ ("crowd" \in S => crowd' = crowd)
           /\ ("conns" \in S => conns' = conns) /\ ("ctr" \in S => ctr' = ctr)
           /\ ("saved" \in S => saved' = saved) /\ ("savedConns" \in S => savedConns' = savedConns)
All == {"now", "cfg", "swarm", "crowd", "conns", "ctr", "saved", "savedConns"}
Same(S) == Keep(All \ S)

TInit ==
  /\ l = 2 /\ now = 0 /\ cfg = Empty /\ swarm = Empty /\ crowd = Empty /\ conns = Empty
  /\ ctr = ZeroCtr /\ saved = NoBackup /\ savedConns = Empty

\* a new segment: a fresh tracker under the given configuration
Reset ==
  /\ Is("reset")
  /\ now' = 0 /\ cfg' = Ev.cfg /\ swarm' = Empty /\ crowd' = Empty /\ conns' = Empty
  \* the next of several clients of one tracker, each with things of its own:
  \* they share the counters
  /\ ctr' = IF "cont" \in DOMAIN Ev THEN ctr ELSE ZeroCtr
  /\ saved' = NoBackup /\ savedConns' = Empty

Adv == Is("adv") /\ now' = now + Ev.d /\ Same({"now"})

\* at or past age `expiry + trim` a scheduled pass has removed the thing for
\* sure, up to `expiry` it is there for sure; the driver looks only then
SettledAt(seen, t, expiry, trim) == t - seen <= expiry \/ t - seen > expiry + trim

\* n anonymous peers announce from one address (ids unseen before), all seeds or all leeches
CrowdJoin ==
  /\ Is("crowdjoin")
  /\ LET k == Crowd(Ev.h) IN
     crowd' = Put(crowd, Ev.h, [c |-> k.c + (IF Ev.c THEN Ev.n ELSE 0),
                                i |-> k.i + (IF Ev.c THEN 0 ELSE Ev.n), seen |-> now])
  /\ Same({"crowd"})
\* n of the crowd's leeches (seeds) announce as seeds (leeches)
CrowdFlip ==
  /\ Is("crowdflip")
  /\ LET k == Crowd(Ev.h) IN
     crowd' = Put(crowd, Ev.h, [c |-> IF Ev.c THEN k.c + Ev.n ELSE k.c - Ev.n,
                                i |-> IF Ev.c THEN k.i - Ev.n ELSE k.i + Ev.n, seen |-> k.seen])
  /\ Same({"crowd"})
CrowdLeave ==
  /\ Is("crowdleave")
  /\ LET k == Crowd(Ev.h) IN
     crowd' = Put(crowd, Ev.h, [c |-> k.c - (IF Ev.c THEN Ev.n ELSE 0),
                                i |-> k.i - (IF Ev.c THEN 0 ELSE Ev.n), seen |-> k.seen])
  /\ Same({"crowd"})
\* n anonymous peers announce, each in a torrent of its own (not seen before)
Throng ==
  /\ Is("throng")
  /\ LET k == Crowd(Ev.h) IN
     crowd' = Put(crowd, Ev.h, [c |-> k.c + (IF Ev.c THEN Ev.n ELSE 0),
                                i |-> k.i + (IF Ev.c THEN 0 ELSE Ev.n), seen |-> now, many |-> TRUE])
  /\ Same({"crowd"})
\* all those torrents have been asked about: the sums, and how many did not have one peer
ThrongLook ==
  /\ Is("thronglook")
  /\ Chk("counts", Ev.c = Crowd(Ev.h).c /\ Ev.i = Crowd(Ev.h).i)
  /\ Chk("members", Ev.c + Ev.i = Crowd(Ev.h).c + Crowd(Ev.h).i)
  /\ Same({})

Mark == TLCSet(1, IF l' > TLCGet(1) THEN l' ELSE TLCGet(1))
Accepted ==
  LET m == TLCGet(1) IN
  IF m = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", m>>) /\ FALSE
ASSUME TLCSet(1, 2)
=============================================================================
