--------------------------------- MODULE Tree ---------------------------------
(***************************************************************************)
(* A server starts on a tree of files with some configuration: what it     *)
(* knows and publishes then.  The tree grows file by file.                 *)
(***************************************************************************)
EXTENDS Workspace, Json, CSV, IOUtils, Randomization

CONSTANTS Lang, Paths, Files_, Random, OutFile

VARIABLES disk, cfg, style, done
vars == <<disk, cfg, style, done>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Used == IF Paths = {} THEN ManyPaths(IF Lang = "python" THEN ".py" ELSE ".rs") ELSE Paths
Closed == [p \in Used |-> None]

Roots == {"templates", "templates/sub", "outside", "src"}
Dirs == { {}, {"src"}, {"src", "lib"}, {"lib", "outside"}, {"src", "src/deep"}, {"templates", "src"}, {"outside", "src", "lib", "lib/sub"}, {"lib/v.txt.d"} }

Init == /\ disk = Closed /\ done = FALSE
        /\ \E r \in Roots, d \in Dirs, h \in {TRUE, FALSE} :
             cfg = [root |-> r, dirs |-> d, hide |-> h]
        \* how the directories are written; nobody should care
        /\ style \in (IF Random THEN {"dotted", "plain", "absolute", "slash", "roundabout"} ELSE {"plain"})
Put == ~done /\ Cardinality({p \in Used : disk[p] # None}) < Files_ /\ UNCHANGED <<cfg, style, done>>
       /\ \E p \in Pick({x \in Used : disk[x] = None}) : \E c \in Pick(ContentsFor(p)) : disk' = [disk EXCEPT ![p] = c]
Finish == ~done /\ (Random => Cardinality({p \in Used : disk[p] # None}) >= Files_) /\ done' = TRUE /\ UNCHANGED <<disk, cfg, style>>
Next == Put \/ Finish
Spec == Init /\ [][Next]_vars

Known == Fresh(disk, Closed, cfg)
Pubs == AllPublished(Known, Known, Closed, disk, cfg)

(* ------------------------------ properties ----------------------------- *)
\* Exactly the templates that are known are published.
Exactly == DOMAIN Pubs = {p \in Used : Known[p] # None /\ p \in Templates_}
\* Everything below a configured directory is known as what it is, the rest isn't.
Right == \A p \in Used : Known[p] = IF Indexed(p, cfg) THEN disk[p] ELSE None
\* A wider configuration knows more, never something else.
Wider == \A d \in Dirs : LET k == Fresh(disk, Closed, [cfg EXCEPT !.dirs = @ \cup d]) IN
  \A p \in Used : Known[p] # None => k[p] = Known[p]
\* References are looked up below the template directory only.
Own == \A p \in DOMAIN Pubs : \A r \in Range(RefsIn[Known[p]]) :
  [s |-> r.s, e |-> r.e, m |-> "missing"] \notin Pubs[p] <=> (cfg.root \o "/" \o Stands(r.n)) \in {x \in Used : disk[x] # None}

Case == [lang |-> Lang, config |-> cfg, style |-> style,
         files |-> {[path |-> p, text |-> TextOf(disk[p])] : p \in {x \in Used : disk[x] # None}},
         pubs |-> {[path |-> p, diags |-> Pubs[p]] : p \in DOMAIN Pubs},
         view |-> {View(p, Known) : p \in Used}]
Emit == (done /\ OutFile # "") => CSVWrite("%1$s", <<ToJson(Case)>>, OutFile)
===============================================================================
