-------------------------- MODULE ControllerTrace --------------------------
(***************************************************************************)
(* Recorded lives of the real controller.  The driver notes, after each    *)
(* command: how it ended, how long it took, what the record file holds,    *)
(* which of the processes it knows are there, which new ones appeared and  *)
(* which signals the stubs and the bystander were sent.                    *)
(***************************************************************************)
EXTENDS Controller, Integers, Json, IOUtils

CONSTANT Aspects
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
A(x) == x \in Aspects
Chk(x, c) == A(x) => c
Is(e) == l <= Len(Trace) /\ Ev.e = e
Mark == l' = l + 1 /\ TLCSet(1, IF l + 1 > TLCGet(1) THEN l + 1 ELSE TLCGet(1))
SetOf(s) == {s[k] : k \in 1..Len(s)}

TReset ==
  /\ Is("reset")
  /\ conf' = [udp |-> Ev.udp, http |-> Ev.http]
  /\ live' = (Ev.bystander :> "bystander") /\ rec' = "absent"
  /\ beacon' = [u |-> "off", h |-> "off"]
TStub == Is("stub") /\ live' = (Ev.name :> Ev.kind) @@ live /\ UNCHANGED <<conf, rec, beacon>>
TKill == Is("kill") /\ live' = Without(Ev.who) /\ UNCHANGED <<conf, rec, beacon>>
TRecord == Is("record") /\ rec' = Ev.rec /\ UNCHANGED <<conf, live, beacon>>
TBeacon == Is("beacon") /\ beacon' = [u |-> Ev.u, h |-> Ev.h] /\ UNCHANGED <<conf, live, rec>>

Sigs(n) == IF n \in DOMAIN Ev.sigs THEN SetOf(Ev.sigs[n]) ELSE {}
Polite == {"interrupt", "terminated"}
\* only the recorded process, and only by a command that stops it, is signalled
Signals ==
  \A n \in DOMAIN live :
    IF Ev.cmd \in {"stop", "restart"} /\ n = rec THEN Sigs(n) \subseteq Polite /\ (live[n] \notin {"real", "portless"} => Sigs(n) # {})
    ELSE Sigs(n) = {}

New == IF Len(Ev.born) = 1 THEN Ev.born[1] ELSE "nobody"
Births == Len(Ev.born) = Cardinality((IF rec' = New THEN {New} ELSE {}))
Ok == Ev.code = 0
\* giving up on a process takes about ten seconds
Patience == (Ev.cmd \in {"stop", "restart"} /\ Alive /\ ~Obeys(rec)) => (Ev.ms >= 8000 /\ Ev.ms <= 40000)

TCmd ==
  /\ Is("cmd")
  /\ Chk("controller",
       /\ CASE Ev.cmd = "start" -> DoStart(Ok, New)
            [] Ev.cmd = "stop" -> DoStop(Ok)
            [] Ev.cmd = "restart" -> DoRestart(Ok, New)
            [] Ev.cmd = "reset" -> DoReset(Ok)
            [] Ev.cmd = "status" -> UNCHANGED <<live, rec>> /\ Ok /\ StatusIs(Ev.status)
            [] OTHER -> UNCHANGED <<live, rec>>
       /\ Births
       /\ Ev.rec = rec'
       /\ Signals
       /\ Patience
       \* what the log held it still holds
       /\ Ev.kept
       \* when the command returned, whoever it stopped was gone
       /\ \A n \in DOMAIN live \ DOMAIN live' : n \notin SetOf(Ev.atexit)
       \* and once things have settled
       /\ SetOf(Ev.alive) = DOMAIN live')
  /\ ~A("controller") => UNCHANGED <<live, rec>>
  /\ UNCHANGED <<conf, beacon>>

Accepted ==
  LET m == TLCGet(1) IN
  IF m = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", m>>) /\ FALSE
ASSUME TLCSet(1, 2)
TInit == /\ l = 2 /\ conf = [udp |-> FALSE, http |-> "disabled"] /\ live = ("none" :> "bystander")
         /\ rec = "absent" /\ beacon = [u |-> "off", h |-> "off"]
TSpec == TInit /\ [][(TReset \/ TStub \/ TKill \/ TRecord \/ TBeacon \/ TCmd) /\ Mark]_<<kvars, l>>
=============================================================================
