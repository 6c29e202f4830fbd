------------------------------ MODULE PgTrace ------------------------------
(***************************************************************************)
(* Backups in a Postgres table: rows with a time each.  A save adds one    *)
(* that holds the whole database, a start takes the latest one.  Others    *)
(* write to the table too, and the server may refuse or vanish.            *)
(***************************************************************************)
EXTENDS TrackerTrace

VARIABLE rows    \* row id -> [ts (ms), swarm, crowd]

Shown == {Ev.rows[k].id : k \in 1..Len(Ev.rows)}
TsOf(i) == (CHOOSE k \in 1..Len(Ev.rows) : Ev.rows[k].id = i)
Fresh2 == Shown \ DOMAIN rows
Content == [swarm |-> swarm, crowd |-> crowd]
Put2(i, t) == i :> [ts |-> t, swarm |-> swarm, crowd |-> crowd]
\* what the table holds now: old rows as they were, new ones with the
\* database of this moment.  Old rows may have been cleared away.
Now2 == [i \in Shown |-> IF i \in DOMAIN rows THEN rows[i]
                         ELSE [ts |-> Ev.rows[TsOf(i)].ts, swarm |-> swarm, crowd |-> crowd]]

Latest(f) == CHOOSE i \in DOMAIN f : \A j \in DOMAIN f : f[j].ts <= f[i].ts
Loaded(f) == IF DOMAIN f = {} THEN [swarm |-> Empty, crowd |-> Empty]
             ELSE LET r == f[Latest(f)] IN [swarm |-> r.swarm, crowd |-> r.crowd]

PReset == Reset /\ rows' = Empty

PSave ==
  /\ Is("pgsave")
  /\ Chk("pg",
       /\ Ev.fault = "" => Ev.ok
       /\ Ev.ok => /\ Fresh2 # {}
                   /\ Ev.fault # "after-insert" => Cardinality(Fresh2) = 1
       /\ \A i \in Fresh2 : Ev.rows[TsOf(i)].ts = now * 1000)
  /\ rows' = Now2
  /\ Same({})

PPut ==
  /\ Is("pgput")
  /\ rows' = [i \in DOMAIN rows \cup {Ev.id} |-> IF i = Ev.id THEN [rows[Ev.of] EXCEPT !.ts = Ev.ts] ELSE rows[i]]
  /\ Same({})

POpen ==
  /\ Is("pgopen")
  /\ Chk("pg", /\ Ev.ok = (Ev.fault = "")
               /\ Shown \subseteq DOMAIN rows)
  /\ rows' = Only(rows, Shown)
  /\ IF Ev.ok THEN swarm' = Loaded(rows).swarm /\ crowd' = Loaded(rows).crowd
     ELSE UNCHANGED <<swarm, crowd>>
  /\ Same({"swarm", "crowd"})

\* time passes with a save scheduled every cfg.backup seconds
PAdv ==
  /\ Is("pgadv")
  /\ Chk("pg", Cardinality(Fresh2) \in (Ev.d \div cfg.backup)..(1 + (Ev.d \div cfg.backup)))
  /\ rows' = Now2
  /\ now' = now + Ev.d
  /\ Same({"now"})

PDb == (Adv \/ DbNext) /\ UNCHANGED rows
PNext == (PReset \/ PSave \/ PPut \/ POpen \/ PAdv \/ PDb) /\ Mark
TSpecPg == TInit /\ rows = Empty /\ [][PNext]_<<vars, rows, l>>

=============================================================================
