-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* Which configuration is in force, what it makes of the directories, and  *)
(* what the user is told.  A configuration is one of a few, or something   *)
(* that isn't one; it comes from the initialization, from a file, or later *)
(* from the client.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, Randomization, SequencesExt

CONSTANTS Steps, Random, Plain, Configs, OutFile

VARIABLES inits,     \* options at initialization: a configuration, "invalid", or "none"
          files,     \* pyproject.toml, Cargo.toml, jinja-lsp.toml
          inForce,   \* the configuration
          read,      \* the one of the last reading that succeeded, or "none"
          there,     \* whether the directory "nowhere" exists
          log
vars == <<inits, files, inForce, read, there, log>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

C(root, dirs, lang, hide) == [root |-> root, dirs |-> dirs, lang |-> lang, hide |-> hide]
All == [ one |-> C("t1", <<"s1">>, "rust", "unset"), two |-> C("t2", <<"s2">>, "rust", "unset"),
         both |-> C("t1", <<"s1", "s2">>, "rust", "unset"), turned |-> C("t2", <<"s2", "s1/deep">>, "rust", "no"),
         alone |-> C("t1", <<>>, "rust", "unset"), deep |-> C("t2", <<"s1/deep">>, "rust", "unset"),
         hidden |-> C("t1", <<"s1">>, "rust", "yes"), shown |-> C("t1", <<"s2">>, "rust", "no"),
         snake |-> C("t1", <<"s1">>, "python", "unset"), snakes |-> C("t2", <<"s1", "s2">>, "python", "yes"),
         overlap |-> C("t1", <<"t1", "s1", "s1">>, "rust", "unset"), swapped |-> C("s1", <<"t1">>, "rust", "unset"),
         noroot |-> C("nowhere", <<"s1">>, "rust", "unset"), nodir |-> C("t1", <<"s1", "nowhere">>, "rust", "unset"),
         empty |-> C("", <<"s1">>, "rust", "unset"), java |-> C("t1", <<"s1">>, "java", "unset"), nolang |-> C("t2", <<"s2">>, "", "yes") ]
Default == C("", <<>>, "", "unset")
InFiles == {"absent", "empty", "broken", "section", "fields", "types"}     \* what isn't a configuration
NotOne == {"null", "text", "number", "fields", "types", "nothing"}
Toml == <<"pyproject.toml", "Cargo.toml", "jinja-lsp.toml">>

(* ------------------------- what is in the directories ------------------ *)
\* templates that use all names and refer to each other, sources that give names in a language
Disk == { [p |-> "t1/a.html", dir |-> {"t1"}, lang |-> "", gives |-> {}], [p |-> "t2/b.html", dir |-> {"t2"}, lang |-> "", gives |-> {}],
          [p |-> "s1/m.rs", dir |-> {"s1"}, lang |-> "rust", gives |-> {"one"}], [p |-> "s2/n.rs", dir |-> {"s2"}, lang |-> "rust", gives |-> {"two"}],
          [p |-> "s1/deep/d.rs", dir |-> {"s1", "s1/deep"}, lang |-> "rust", gives |-> {"deep"}],
          [p |-> "s1/k.py", dir |-> {"s1"}, lang |-> "python", gives |-> {"snake"}], [p |-> "s2/l.py", dir |-> {"s2"}, lang |-> "python", gives |-> {"adder"}] }
Uses == <<"one", "two", "deep", "snake", "adder">>
Refs == <<"a.html", "b.html">>

Dirs(c) == {c.root} \cup ToSet(c.dirs)
Readable(c, t) == c.lang \in {"rust", "python"} /\ "" \notin Dirs(c) /\ ("nowhere" \notin Dirs(c) \/ t)
Indexed(c) == {f \in Disk : f.dir \cap Dirs(c) # {}}
Given(c) == UNION {f.gives : f \in {x \in Indexed(c) : x.lang = c.lang}}
Exists(c, ref) == (c.root = "t1" /\ ref = "a.html") \/ (c.root = "t2" /\ ref = "b.html")
\* what is reported in each template
Reports(c) == [names |-> [i \in 1..Len(Uses) |-> IF c.hide = "yes" THEN "" ELSE IF Uses[i] \in Given(c) THEN "elsewhere" ELSE "undefined"],
               refs |-> [i \in 1..Len(Refs) |-> IF Exists(c, Refs[i]) THEN "" ELSE "missing"]]
ReadNow == IF read = "none" THEN Default ELSE All[read]
View == [reports |-> Reports(ReadNow), indexed |-> {f.p : f \in IF read = "none" THEN {} ELSE Indexed(ReadNow)},
         templates |-> IF read = "none" THEN {} ELSE {f.p : f \in {x \in Indexed(ReadNow) : x.lang = ""}}]

(* ------------------------------- precedence ----------------------------- *)
FromFiles(fs) == LET valid == {i \in 1..3 : fs[i] \in DOMAIN All} IN
  IF valid = {} THEN "none" ELSE fs[CHOOSE i \in valid : \A j \in valid : i <= j]
Chosen(i, fs) == IF i \in DOMAIN All THEN i ELSE FromFiles(fs)
\* what the user is told when the directories are about to be read
Told(n, t) == LET c == IF n = "none" THEN Default ELSE All[n] IN
  <<"initialized">> \o (IF n = "none" THEN <<"no configuration">> ELSE <<>>) \o (IF c.root = "" THEN <<"no templates">> ELSE <<>>)
  \o (IF c.lang \notin {"rust", "python"} THEN <<"language">> ELSE IF ~Readable(c, t) THEN <<"error">> ELSE <<>>)
After(n, t, r) == IF n # "none" /\ Readable(All[n], t) THEN n ELSE r

Init ==
  /\ inits \in {"none", "null", "text", "fields", "types"} \cup Configs
  /\ files \in (IF Random THEN RandomSubset(60, [1..3 -> InFiles \cup Configs]) ELSE [1..3 -> Plain])
  /\ there \in {TRUE, FALSE}
  /\ inForce = Chosen(inits, files) /\ read = After(inForce, there, "none")
  /\ log = <<[op |-> "start", x |-> <<inits, files, there>>, told |-> Told(inForce, there), pubs |-> read # "none", view |-> View]>>

Log(op, x, told, pubs) == log' = Append(log, [op |-> op, x |-> x, told |-> told, pubs |-> pubs, view |-> View'])
More == Len(log) <= Steps
\* the client is told, and everything is published again if it could be read
Reread(op, x) == /\ read' = After(inForce', there, read)
                 /\ Log(op, x, Told(inForce', there), inForce' # "none" /\ Readable(All[inForce'], there))
Change == More /\ \E c \in Pick(Configs) : inForce' = c /\ UNCHANGED <<inits, files, there>> /\ Reread("change", c)
\* what isn't a configuration changes nothing
Nonsense == More /\ \E x \in Pick(NotOne) : UNCHANGED <<inits, files, there, inForce>> /\
  IF inForce = "none" THEN read' = read /\ Log("nonsense", x, <<>>, FALSE) ELSE Reread("nonsense", x)
Reset == More /\ UNCHANGED <<inits, files, there, inForce>> /\ Reread("reset", "")
\* a directory comes or goes, a file is written: nobody looks
Touch == More /\ there' = ~there /\ UNCHANGED <<inits, files, inForce, read>> /\ Log(IF there' THEN "mkdir" ELSE "rmdir", "", <<>>, FALSE)
Write == More /\ \E i \in Pick(1..3) : \E c \in Pick(Configs) : files' = [files EXCEPT ![i] = c] /\ UNCHANGED <<inits, there, inForce, read>>
         /\ Log("write", c, <<>>, FALSE)
Next == Change \/ Change \/ Nonsense \/ Reset \/ Touch \/ Write
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
OptionsWin == inits \in DOMAIN All => Chosen(inits, files) = inits
FirstFile == (inits \notin DOMAIN All /\ files[1] \in DOMAIN All) => Chosen(inits, files) = files[1]
LastFile == (inits \notin DOMAIN All /\ files[1] \notin DOMAIN All /\ files[2] \notin DOMAIN All) =>
        Chosen(inits, files) = (IF files[3] \in DOMAIN All THEN files[3] ELSE "none")
\* only what the client says changes it
Only == [][inForce' # inForce => log'[Len(log')].op = "change"]_vars
\* what is known is of a configuration that was in force
Reads == read = "none" \/ read \in Configs \cup ToSet(log[1].x[2]) \cup {inits}
\* whatever is wrong is said when it matters
Reported == \A i \in 1..Len(log) : log[i].told # <<>> => (log[i].pubs <=> ~ \E k \in 1..Len(log[i].told) : log[i].told[k] \in {"no configuration", "no templates", "language", "error"})
Emit == Len(log) = Steps + 1 => CSVWrite("%1$s", <<ToJson([log |-> log, configs |-> All, uses |-> Uses, refs |-> Refs])>>, OutFile)
===============================================================================
