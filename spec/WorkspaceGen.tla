----------------------------- MODULE WorkspaceGen -----------------------------
(***************************************************************************)
(* Histories of a workspace.  Every step waits until the server has come   *)
(* to rest, WorkspaceTrace has the ones that don't.                        *)
(***************************************************************************)
EXTENDS Workspace, Json, CSV, IOUtils, Randomization

CONSTANTS Paths, Contents, ConfigNames,   \* what there is
          Ops,                        \* which operations
          Steps, Random, OutFile

VARIABLES disk, open, known, pub, cfg, log, last
vars == <<disk, open, known, pub, cfg, log, last>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Configs ==
  {CASE n = "plain"  -> [root |-> "templates", dirs |-> {"src"}, hide |-> FALSE]
     [] n = "hidden" -> [root |-> "templates", dirs |-> {"src"}, hide |-> TRUE]
     [] n = "alone"  -> [root |-> "templates", dirs |-> {}, hide |-> FALSE]
     [] n = "both"   -> [root |-> "templates", dirs |-> {"src", "lib"}, hide |-> FALSE]
     [] n = "wide"   -> [root |-> "templates", dirs |-> {"outside", "lib"}, hide |-> FALSE]
     [] n = "other"  -> [root |-> "outside", dirs |-> {"src"}, hide |-> FALSE] : n \in ConfigNames}
For(p) == ContentsFor(p) \cap Contents
Docs == Paths \ Nothing
IsOpen == {p \in Docs : open[p] # None}

Both(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
Entry(op, more, pubs, k) ==
  Both(more, [ op |-> op, pubs |-> {[path |-> p, diags |-> pubs[p]] : p \in DOMAIN pubs}, view |-> {View(p, k) : p \in Paths} ])

\* One step: what is said, what is known and published after it.
Step(op, more, disk2, open2, known2, pubs, cfg2) ==
  /\ disk' = disk2 /\ open' = open2 /\ known' = known2 /\ cfg' = cfg2
  /\ pub' = [p \in Paths |-> IF p \in DOMAIN pubs THEN pubs[p] ELSE IF op = "detour" THEN {} ELSE pub[p]]
  /\ log' = Append(log, Entry(op, more, pubs, known2))
  /\ last' = [op |-> op, p |-> IF "path" \in DOMAIN more THEN more.path ELSE None,
              touched |-> DOMAIN pubs, known |-> known, open |-> open, pub |-> pub]

Say(p, c) == [path |-> p, text |-> TextOf(c)]

Init ==
  \E d \in (IF Random THEN RandomSubset(60, [Paths -> {None} \cup Contents]) ELSE [Paths -> {None} \cup Contents]), c \in Configs :
    /\ disk = [p \in Paths |-> IF d[p] # None /\ p \notin Nothing /\ d[p] \notin ContentsFor(p) THEN "empty" ELSE d[p]]
    /\ cfg = c
    /\ open = [p \in Paths |-> None]
    /\ known = Fresh(disk, open, cfg)
    /\ LET pubs == AllPublished(known, known, open, disk, cfg) IN
         /\ pub = [p \in Paths |-> IF p \in DOMAIN pubs THEN pubs[p] ELSE {}]
         /\ log = << Entry("start", [config |-> cfg, files |-> {[path |-> p, text |-> TextOf(disk[p])] : p \in {x \in Paths : disk[x] # None}}],
                           pubs, known) >>
         /\ last = [op |-> "start", p |-> None, touched |-> DOMAIN pubs, known |-> known, open |-> open, pub |-> pub]

Room(op) == Len(log) < Steps /\ op \in Ops

\* the document is opened, also with a text that isn't on the disk, also again
Open == Room("open") /\ \E p \in Pick(Docs) : \E c \in Pick(For(p)) :
  LET k == [known EXCEPT ![p] = c] IN
    Step("open", Say(p, c), disk, [open EXCEPT ![p] = c], k, OnePublished(p, k, disk, cfg), cfg)
\* nobody wants to know of other files
OpenOther == Room("open") /\ \E p \in Pick(Paths \cap Nothing) : \E c \in Pick(Contents \cap TemplateContents) :
    Step("open", Say(p, c), disk, open, known, <<>>, cfg)

Edit(op, more, p, c) ==
  LET k == [known EXCEPT ![p] = c] IN
    Step(op, Both(Say(p, c), more), disk, [open EXCEPT ![p] = c], k, OnePublished(p, k, disk, cfg), cfg)
Change == Room("change") /\ \E p \in Pick(IsOpen) : \E c \in Pick(For(p)) : Edit("change", <<>>, p, c)
\* saved right after the edit; the editor writes the file, too
ChangeSave == Room("changesave") /\ \E p \in Pick(IsOpen) : \E c \in Pick(For(p)) :
  LET k == [known EXCEPT ![p] = c]
      d == [disk EXCEPT ![p] = c] IN
    Step("changesave", Say(p, c), d, [open EXCEPT ![p] = c], k, OnePublished(p, k, d, cfg), cfg)
Save == Room("save") /\ \E p \in Pick(IsOpen) :
  LET d == [disk EXCEPT ![p] = open[p]] IN
    Step("save", Say(p, open[p]), d, open, known, OnePublished(p, known, d, cfg), cfg)

Shut(p, d) == IF open[p] = None THEN known ELSE [known EXCEPT ![p] = d[p]]
Close == Room("close") /\ \E p \in Pick(Docs) :
  LET k == Shut(p, disk) IN
    Step("close", [path |-> p], disk, [open EXCEPT ![p] = None], k,
         IF open[p] = None THEN <<>> ELSE OnePublished(p, k, disk, cfg), cfg)
\* the edit is still waiting for its analysis
ChangeClose == Room("changeclose") /\ \E p \in Pick(IsOpen) : \E c \in Pick(For(p)) :
  LET k == Shut(p, disk) IN
    Step("changeclose", Say(p, c), disk, [open EXCEPT ![p] = None], k, OnePublished(p, k, disk, cfg), cfg)

\* somebody else writes to the disk, the server isn't told
Write == Room("write") /\ \E p \in Pick(Paths) : \E c \in Pick(For(p)) :
    Step("write", Say(p, c), [disk EXCEPT ![p] = c], open, known, <<>>, cfg)
Delete == Room("delete") /\ \E p \in Pick({x \in Paths : disk[x] # None}) :
    Step("delete", [path |-> p], [disk EXCEPT ![p] = None], open, known, <<>>, cfg)

Restart(op, more, o, c) ==
  LET k == Fresh(disk, o, c) IN Step(op, more, disk, o, k, AllPublished(known, k, o, disk, c), c)
Reset == Room("reset") /\ Restart("reset", <<>>, open, cfg)
ChangeReset == Room("changereset") /\ \E p \in Pick(IsOpen) : \E c \in Pick(For(p)) :
  LET k0 == [known EXCEPT ![p] = c]
      o == [open EXCEPT ![p] = c] IN
    Restart("changereset", Say(p, c), o, cfg)
Configure == Room("configure") /\ \E c \in Configs : Restart("configure", [config |-> c], open, c)
\* the language of the backend is another one for a while, what is published then isn't looked at
Detour == Room("configure") /\ \E c \in Pick(Configs) :
  LET k == Fresh(disk, open, c) IN Step("detour", [config |-> c], disk, open, k, AllPublished(k, k, open, disk, c), c)
\* settings that are none change nothing, but the workspace is read again
Settings == Room("configure") /\ Restart("settings", <<>>, open, cfg)

Next == \/ Open \/ Open \/ Close \/ Save \/ Reset \/ Configure \/ Detour \/ Write \/ Write \/ Change \/ Change
        \/ ChangeSave \/ ChangeClose \/ ChangeReset \/ Delete \/ OpenOther \/ Settings
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
\* An open document is known by its text in the editor.
OpenIsKnown == \A p \in Docs : open[p] # None => known[p] = open[p]
\* P16: a step about one document publishes nothing for another.
OwnOnly == last.p # None /\ last.op # "changereset" => last.touched \subseteq {last.p}
\* P23: what isn't touched stays as it is.
Untouched == last.p # None /\ last.op # "changereset" => \A p \in Paths \ {last.p} : known[p] = last.known[p] /\ pub[p] = last.pub[p]
\* P19: after a reset everything is as if the server had just started.
ResetIsFresh == last.op \in {"reset", "changereset", "configure", "settings", "detour"} =>
  /\ known = Fresh(disk, open, cfg)
  /\ \A p \in Paths : known[p] # None /\ p \in Templates_ => pub[p] = DiagsOf(p, known[p], known, disk, cfg)
  /\ \A p \in Paths : known[p] = None => pub[p] = {} \/ last.known[p] = None
\* P22: closing goes back to the disk.
CloseRestores == last.op \in {"close", "changeclose"} /\ last.open[last.p] # None => known[last.p] = disk[last.p]
\* P16: what was published last is what the text deserved when it was analysed.
Deserved == last.p \in last.touched => pub[last.p] = IF known[last.p] = None THEN {} ELSE DiagsOf(last.p, known[last.p], known, disk, cfg)
\* Files of other kinds are never known nor reported.
NothingElse == \A p \in Paths \cap Nothing : known[p] = None /\ pub[p] = {}
\* A forgotten file isn't reported.
ForgottenIsClear == \A p \in Paths : known[p] = None => pub[p] = {}
\* Answers agree: what hover calls unknown has nowhere to go, unless it goes to a block or itself.
Agree == \A p \in Paths : known[p] # None /\ p \in Templates_ =>
  \A u \in UseAnswers(p, known) : (u.hover = "none" /\ ~u.own.found) <=> (~u.own.found /\ u.others = {})

Emit == (Len(log) >= Steps /\ OutFile # "") => CSVWrite("%1$s", <<ToJson([log |-> log])>>, OutFile)
=============================================================================
