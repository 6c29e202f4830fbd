---------------------------- MODULE ControllerMC ----------------------------
(***************************************************************************)
(* Controller over one stub, one daemon and a bystander, exhaustively; and *)
(* the generator of its stimuli: `act` is the step just taken, as JSON.    *)
(***************************************************************************)
EXTENDS Controller

CONSTANTS Udps, Https, Us, Hs, Kinds, Recs

VARIABLE act
mcv == <<kvars, act>>

Q(k, v) == "\"" \o k \o "\":\"" \o v \o "\""
Note(a) == act' = "{" \o a \o "}"
\* a record of a process that is gone is a record of nobody
Norm(r, lv) == IF r \in NoRecord \/ r \in DOMAIN lv THEN r ELSE "dead"

MInit ==
  /\ conf \in [udp : Udps, http : Https]
  /\ live = ("b" :> "bystander")
  /\ rec = "absent"
  /\ beacon = [u |-> "off", h |-> "off"]
  /\ act = "{}"

Stub(k) ==
  /\ ~Up("s") /\ live' = ("s" :> k) @@ live
  /\ Note(Q("e", "stub") \o "," \o Q("kind", k))
  /\ UNCHANGED <<conf, rec, beacon>>
Kill(n) ==
  /\ Up(n) /\ live' = Without(n)
  /\ rec' = Norm(rec, live')
  /\ Note(Q("e", "kill") \o "," \o Q("who", n))
  /\ UNCHANGED <<conf, beacon>>
Record(r) ==
  /\ r \in {"s", "d", "group"} => Up(IF r = "group" THEN "s" ELSE r)
  /\ r # rec /\ rec' = r
  /\ Note(Q("e", "record") \o "," \o Q("rec", r))
  /\ UNCHANGED <<conf, live, beacon>>
Beacon(u, h) ==
  /\ Reals = {} /\ beacon # [u |-> u, h |-> h]
  /\ beacon' = [u |-> u, h |-> h]
  /\ Note(Q("e", "beacon") \o "," \o Q("u", u) \o "," \o Q("h", h))
  /\ UNCHANGED <<conf, live, rec>>

\* the new daemon is called d, or is gone already (here one that finds its
\* ports taken always is)
Real == \A n \in DOMAIN live' \ DOMAIN live : live'[n] = "real"
Start == /\ \E ok \in BOOLEAN : DoStart(ok, IF PortsFree THEN "d" ELSE "dead") /\ Real
         /\ Note(Q("e", "cmd") \o "," \o Q("cmd", "start")) /\ UNCHANGED <<conf, beacon>>
Stop == /\ \E ok \in BOOLEAN : DoStop(ok)
        /\ Note(Q("e", "cmd") \o "," \o Q("cmd", "stop")) /\ UNCHANGED <<conf, beacon>>
Restart == /\ \E ok \in BOOLEAN : DoRestart(ok, IF Alive /\ FreeWithout(rec) THEN "d" ELSE "dead") /\ Real
           /\ Note(Q("e", "cmd") \o "," \o Q("cmd", "restart")) /\ UNCHANGED <<conf, beacon>>
Reset == /\ DoReset(TRUE)
         /\ Note(Q("e", "cmd") \o "," \o Q("cmd", "reset")) /\ UNCHANGED <<conf, beacon>>
Status == /\ Note(Q("e", "cmd") \o "," \o Q("cmd", "status")) /\ UNCHANGED <<conf, live, rec, beacon>>

MNext ==
  \/ \E k \in Kinds : Stub(k)
  \/ \E n \in {"s", "d"} : Kill(n)
  \/ \E r \in Recs : Record(r)
  \/ \E u \in Us, h \in Hs : Beacon(u, h)
  \/ Start \/ Stop \/ Restart \/ Reset \/ Status

MSpec == MInit /\ [][MNext]_mcv

IsCmd(c) == act' = "{" \o Q("e", "cmd") \o "," \o Q("cmd", c) \o "}"
Cmds == {"start", "stop", "restart", "reset", "status"}
(* C21: no command ends a process other than the recorded one, and only    *)
(* start and restart make one, and only when nobody is recorded or answers *)
Others == [][(\E c \in Cmds : IsCmd(c)) =>
               \A n \in DOMAIN live : n \notin DOMAIN live' => n = rec /\ (IsCmd("stop") \/ IsCmd("restart"))]_mcv
Births == [][\A n \in DOMAIN live' \ DOMAIN live :
               /\ (\E c \in Cmds : IsCmd(c)) => IsCmd("start") \/ IsCmd("restart")
               /\ IsCmd("start") => ~Recorded /\ ~Heartbeat /\ rec' = n]_mcv
OneDaemon == Cardinality(Reals) <= 1
Cleared == [][IsCmd("reset") /\ rec # "absent" => rec' = "empty"]_mcv
StopClears == [][IsCmd("stop") => (rec' = "empty" /\ live' # live) \/ UNCHANGED <<rec, live>>]_mcv
=============================================================================
