---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* Where the tracker's settings come from.  A load sees an environment, a  *)
(* file in the current directory and the user's file, either of which may  *)
(* be missing; values are bytes in a canonical form.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Aspects
Trace == ndJsonDeserialize(IOEnv.TRACE)
D == Trace[1]
VARIABLE l
Ev == Trace[l]
A(x) == x \in Aspects

Settings == DOMAIN D.kinds
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE D.zero[k]

Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
EnvPrefix == <<69, 78, 86, 58>>   \* ENV:
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Homed(_, _)
Homed(s, home) == IF s = <<>> THEN <<>>
                  ELSE (IF s[1] = 126 THEN home ELSE <<s[1]>>) \o Homed(SubSeq(s, 2, Len(s)), home)
\* the variables of the process, by the bytes of their names
VarNames == {<<86, 69, 82, 73, 70, 95, 65>>, <<86, 69, 82, 73, 70, 95, 66>>}
Var(ev, name) == IF name = <<86, 69, 82, 73, 70, 95, 65>> THEN ev.vars.VERIF_A
                 ELSE IF name = <<86, 69, 82, 73, 70, 95, 66>> THEN ev.vars.VERIF_B ELSE <<>>

\* the source in force for a setting
Raw(ev, k) ==
  IF k \in DOMAIN ev.env THEN ev.env[k]
  ELSE IF ev.hascwd THEN Get(ev.cwd, k)
  ELSE IF ev.hashome THEN Get(ev.home, k)
  ELSE D.defaults[k]

Value(ev, k) ==
  LET r == Raw(ev, k)
      kind == D.kinds[k]
  IN CASE k = "http.port" /\ ev.port # <<>> -> ev.port
       [] kind \in {"level", "mode"} -> Lower(r)
       [] kind = "path" -> Homed(r, ev.homedir)
       [] kind = "bpath" /\ StartsWith(r, EnvPrefix) -> Var(ev, SubSeq(r, 5, Len(r)))
       [] OTHER -> r

Load ==
  /\ l <= Len(Trace) /\ Ev.e = "load"
  /\ A("config") => /\ Ev.ok
                    /\ \A k \in Settings : Ev.result[k] = Value(Ev, k)
  \* the user's file is created once and never touched again
  /\ A("file") => /\ Ev.ok
                  /\ Ev.homeshaAfter = IF Ev.hashome THEN Ev.homesha ELSE D.defsha
                  /\ Ev.cwdshaAfter = Ev.cwdsha
  /\ l' = l + 1

Mark == TLCSet(1, IF l' > TLCGet(1) THEN l' ELSE TLCGet(1))
Accepted ==
  LET m == TLCGet(1) IN
  IF m = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", m>>) /\ FALSE
ASSUME TLCSet(1, 2)
TSpec == l = 2 /\ [][Load /\ Mark]_l
=============================================================================
