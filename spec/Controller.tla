----------------------------- MODULE Controller -----------------------------
(***************************************************************************)
(* The command line controller: it starts a daemon and remembers it in a   *)
(* record file, stops the one it remembers, and tells what it knows.       *)
(* Around it: processes that may be recorded or not, that obey, dawdle or  *)
(* refuse, and things that answer (or not) on the tracker's ports.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
  conf,    \* [udp, http]: the configured servers
  live,    \* process -> "real" | "portless" | "prompt" | "slow" | "stubborn" | "bystander"
  rec,     \* the record file: a process, "dead", or not a process ID at all
  beacon   \* [u, h]: what foreign programs do on the two ports

kvars == <<conf, live, rec, beacon>>

NoRecord == {"absent", "empty", "junk", "zero", "minus", "group"}
Recorded == rec \notin NoRecord
Up(n) == n \in DOMAIN live
Alive == Recorded /\ Up(rec)
Reals == {n \in DOMAIN live : live[n] = "real"}

Udp == conf.udp
Http == conf.http = "enabled"
\* a running tracker answers on its ports
Heartbeat ==
  \/ Udp /\ (beacon.u = "ok" \/ Reals # {})
  \/ Http /\ (beacon.h = "ok" \/ Reals # {})

Without(n) == [m \in DOMAIN live \ {n} |-> live[m]]
Obeys(n) == live[n] \in {"real", "portless", "prompt", "slow"}

MayStart == ~Recorded /\ ~Heartbeat
\* a daemon that finds its ports taken may not last, and answers nothing
PortsFree == /\ Udp => beacon.u = "off"
             /\ conf.http # "disabled" => beacon.h = "off"
             /\ (Udp \/ conf.http # "disabled") => Reals = {}

----------------------------------------------------------------------------
(* The commands.  `ok` tells whether the command succeeded.                *)
Started(new) ==
  /\ rec' = new
  /\ IF PortsFree THEN live' = (new :> "real") @@ live
     ELSE live' \in {live, (new :> "portless") @@ live}

DoStart(ok, new) ==
  IF MayStart THEN ok /\ Started(new)
  ELSE ~ok /\ UNCHANGED <<live, rec>>

CanStop == Alive /\ Obeys(rec)
Stopped == live' = Without(rec) /\ rec' = "empty"
DoStop(ok) ==
  IF CanStop THEN ok /\ Stopped
  ELSE ~ok /\ UNCHANGED <<live, rec>>

\* once the recorded process is gone the rest is a start
AnsweringWithout(n) ==
  \/ Udp /\ (beacon.u = "ok" \/ Reals \ {n} # {})
  \/ Http /\ (beacon.h = "ok" \/ Reals \ {n} # {})
FreeWithout(n) == /\ Udp => beacon.u = "off"
                  /\ conf.http # "disabled" => beacon.h = "off"
                  /\ (Udp \/ conf.http # "disabled") => Reals \ {n} = {}
DoRestart(ok, new) ==
  IF ~CanStop THEN ~ok /\ UNCHANGED <<live, rec>>
  ELSE IF AnsweringWithout(rec) THEN ~ok /\ Stopped
  ELSE /\ ok /\ rec' = new
       /\ IF FreeWithout(rec) THEN live' = (new :> "real") @@ Without(rec)
          ELSE live' \in {Without(rec), (new :> "portless") @@ Without(rec)}

DoReset(ok) ==
  /\ live' = live
  /\ IF rec = "absent" THEN rec' = "absent" ELSE ok /\ rec' = "empty"

\* what a status has to say
StatusIs(st) == st = <<Recorded, Alive, Heartbeat>>
=============================================================================
