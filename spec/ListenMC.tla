------------------------------ MODULE ListenMC ------------------------------
(***************************************************************************)
(* Every start of a machine with two addresses, for what Listen promises.  *)
(***************************************************************************)
EXTENDS Listen

VARIABLE c   \* the settings of the last start
T4(a) == CASE a = <<127, 0, 0, 1>> -> <<49, 50, 55, 46, 48, 46, 48, 46, 49>>   \* 127.0.0.1
           [] a = <<10, 1, 2, 3>> -> <<49, 48, 46, 49, 46, 50, 46, 51>>        \* 10.1.2.3
           [] a = <<9, 9, 9, 9>> -> <<57, 46, 57, 46, 57, 46, 57>>             \* 9.9.9.9, not this machine's
Zero4 == <<48, 46, 48, 46, 48, 46, 48>>   \* 0.0.0.0
Here == {<<127, 0, 0, 1>>, <<10, 1, 2, 3>>}
Texts == {<<>>, <<58, 58>>, Zero4, T4(<<127, 0, 0, 1>>), T4(<<10, 1, 2, 3>>), T4(<<9, 9, 9, 9>>)}
Cfgs == [http : {"enabled", "info", "disabled"}, hip : Texts, udp : BOOLEAN, uip : Texts, pprof : {0, 1337},
         heldh : BOOLEAN, heldu : BOOLEAN, heldp : BOOLEAN]
None == CHOOSE x \in Cfgs : x.http = "disabled" /\ ~x.udp /\ x.pprof = 0

Init == addrs = Here /\ open = {} /\ c = None
Next == \/ c = None /\ \E x \in Cfgs : Start(x) /\ c' = x
        \/ Stop /\ c' = None
MSpec == Init /\ [][Next]_<<lvars, c>>

Only == \A o \in open : o.ip \in addrs /\ (o.on = "pprof" => o.ip = <<127, 0, 0, 1>>)
\* a named address and no other
Named1 == \A o \in open : (o.on = "http" /\ ~Everywhere(c.hip)) => T4(o.ip) = c.hip
Named2 == \A o \in open : (o.on = "udp" /\ ~Everywhere(c.uip)) => T4(o.ip) = c.uip
Off == /\ c.http = "disabled" => ~\E o \in open : o.on = "http"
       /\ ~c.udp => ~\E o \in open : o.on = "udp"
       /\ c.pprof = 0 => ~\E o \in open : o.on = "pprof"
\* a running tracker answers everywhere it should, or not at all
AllOrNothing == open # {} =>
  /\ (c.udp => \E o \in open : o.on = "udp") /\ (c.http = "enabled" => \E o \in open : o.on = "http")
  /\ (c.udp /\ Everywhere(c.uip) => \A a \in addrs : [on |-> "udp", ip |-> a] \in open)
=============================================================================
