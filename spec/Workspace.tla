------------------------------ MODULE Workspace ------------------------------
(***************************************************************************)
(* A workspace over time: what is on the disk, what is open in the editor, *)
(* what the server knows of each file and what it published last.          *)
(*                                                                         *)
(* The server knows a file by the text it analysed last: when it started   *)
(* or was reset, when the document was opened, saved, closed, or a while   *)
(* after it was edited.  Everything it answers follows from that.          *)
(***************************************************************************)
EXTENDS Refs

(* -------------------------------- files -------------------------------- *)
None == ""
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Base(p) == LET x == Segments(p) IN x[Len(x)]
\* a name that is nothing but an extension has none
HasExt(p, e) == EndsWith(p, e) /\ Base(p) # e
KindOfPath(p) ==
  IF \E e \in {".html", ".jinja", ".j2"} : HasExt(p, e) THEN "template"
  ELSE IF \E e \in {".rs", ".py"} : HasExt(p, e) THEN "source" ELSE "other"

\* the files of the histories
FewPaths == {"templates/a.html", "templates/sub/a.html", "templates/ü x.j2", "outside/o.html", "src/m.rs", "lib/deep/m.rs",
             "templates/n.txt"}
\* the files of the directory trees
ManyPaths(ext) ==
  {"templates/a.html", "templates/sub/a.html", "templates/ü x.j2", "templates/n.txt", "templates/sub/deep/er/c.html",
   "templates/.hidden/d.jinja", "templates/e.html.bak", "templates/f.jinja2", "templates/noext", "templates/.html",
   "templates/dir.html/g.j2", "templates/h.HTML", "templates/i.min.html", "templates/[x]&=%20.jinja", "outside/o.html",
   "src/page.html", "lib/sub/x.j2", "top.html", "templatesx/y.html",
   "templates/1/2/3/4/5/6/7/8/9/deep.html", "templates/back\\slash.html", "templates/node_modules/k.html", "templates/target/l.html"}
  \cup {x \o ext : x \in {"src/m", "src/deep/er/n", "lib/deep/m", "templates/sub/t", "outside/u", "src/ü y", "lib/v.txt", "src/1/2/3/4/5/6/7/8/9/deep", "src/.hidden/w", "src/tests/x", "src/_y"}}
AllPaths == FewPaths \cup ManyPaths(".rs") \cup ManyPaths(".py")
KindOf == [p \in AllPaths |-> KindOfPath(p)]
Templates_ == {p \in AllPaths : KindOf[p] = "template"}
Sources == {p \in AllPaths : KindOf[p] = "source"}
Nothing == {p \in AllPaths : KindOf[p] = "other"}            \* not a file the server cares about

(* ------------------------------- contents ------------------------------ *)
G(toks) == Item("leaf", <<K("{{"), K(" ")>> \o toks \o <<K(" "), K("}}")>>)
S_(op, toks) == Item(op, <<K("{%"), K(" ")>> \o toks \o <<K(" "), K("%}")>>)
Free == G(<<H("var")>>)
Include(n) == S_("leaf", <<K("include"), K(" "), Ref("\"", n)>>)
Set(n) == S_("leaf", <<K("set"), K(" "), D(n, "set"), K(" = "), K("1")>>)
BQ(n) == [t |-> "\"" \o n \o "\"", n |-> n, w |-> Len(n) + 2, r |-> "var", d |-> "backend"]

ItemsOf(c) ==
  CASE c = "empty"   -> <<>>
    [] c = "set_p"   -> <<Set("p"), G(<<V("q")>>), Free>>
    [] c = "moved"   -> <<Item("leaf", <<X("é"), NL>>), Set("p"), G(<<V("p")>>), Free>>
    [] c = "macro_q" -> <<S_("open", <<K("macro"), K(" "), D("q", "macro"), K("("), D("r", "param"), K(")")>>), G(<<V("r")>>), Free,
                          S_("close", <<K("endmacro")>>), G(<<V("p")>>)>>
    [] c = "uses"    -> <<G(<<V("p")>>), Item("leaf", <<NL>>), G(<<V("q")>>), G(<<V("r"), K("."), F("f")>>), Free>>
    [] c = "loop"    -> <<S_("open", <<K("for"), K(" "), D("r", "for_key"), K(", "), D("q", "for_value"), K(" "), K("in"), K(" "), V("p")>>), G(<<V("q")>>), Free,
                          S_("close", <<K("endfor")>>), G(<<V("r")>>)>>
    [] c = "block_r" -> <<S_("open", <<K("block"), K(" "), D("r", "block")>>), G(<<V("r")>>), S_("close", <<K("endblock")>>), Free>>
    [] c = "inc_b"   -> <<Include("sub/a.html"), G(<<V("p")>>), Include("nope.html"), Set("s")>>
    [] c = "inc_a"   -> <<Item("leaf", <<NL>>), Include("a.html"), Include("o.html"), Include("n.txt"), Free>>
    [] c = "inc_u"   -> <<Include("ü x.j2"), Set("q"), Set("q"), G(<<V("s")>>)>>
    [] c = "give_p"  -> <<Item("leaf", <<X("fn f() { let c = context! { "), B("p"), X(" => 1 }; }"), NL>>)>>
    [] c = "give_qr" -> <<Item("leaf", <<X("fn f() {"), NL, X("    jinja.add_global("), BQ("q"), X(", 1);"), NL,
                                        X("    render(context!{ "), B("r"), X(", "), B("q"), X(" });"), NL, X("}"), NL>>)>>
    [] c = "load"    -> <<Item("leaf", <<X("fn f() { render_jinja("), Ref("\"", "a.html"), X(", context! { "), B("s"), X(" => 1 }); get_template("),
                                        Ref("\"", "sub/a.html"), X("); }"), NL>>)>>
    [] c = "py_give" -> <<Item("leaf", <<X("t.render("), B("p"), X("=1, "), B("r"), X("=q)"), NL, X("jinja_env.globals['"), B("q"), X("'] = 1"), NL>>)>>
    [] c = "py_load" -> <<Item("leaf", <<X("é = get_template("), Ref("'", "a.html"), X(").render("), B("s"), X("=1)"), NL, X("get_template("),
                                        Ref("\"", "nope.html"), X(")"), NL>>)>>
TemplateContents == {"empty", "set_p", "moved", "macro_q", "uses", "loop", "block_r", "inc_b", "inc_a", "inc_u"}
RustContents == {"empty", "give_p", "give_qr", "load"}
PythonContents == {"empty", "py_give", "py_load"}
SourceContents == RustContents \cup PythonContents
An == [c \in TemplateContents \cup SourceContents |-> Analyse(ItemsOf(c))]
RefsIn == [c \in TemplateContents \cup SourceContents |-> RefsOf(ItemsOf(c))]
ContentsFor(p) == IF p \notin Sources THEN TemplateContents ELSE IF EndsWith(p, ".py") THEN PythonContents ELSE RustContents
TextOf(c) == IF c = None THEN "" ELSE An[c].txt

(* ---------------------------- configurations --------------------------- *)
\* root: the template directory, dirs: the backend directories
Within(p, dir) == Starts(p, dir \o "/")
Below(p, cfg) == \E d \in cfg.dirs \cup {cfg.root} : Within(p, d)
Indexed(p, cfg) == p \notin Nothing /\ Below(p, cfg)
\* what a name of a template can stand for
Tree(disk, cfg) ==
  {SubSeq(p, Len(cfg.root) + 2, Len(p)) : p \in {x \in DOMAIN disk : disk[x] # None /\ Within(x, cfg.root)}}

(* ------------------------------- answers ------------------------------- *)
\* definitions other files have: known is what is known of each file
ElsewhereOf(p, known) ==
  {[n |-> d.n, k |-> d.k, f |-> q, s |-> d.s, e |-> d.e] :
     <<q, d>> \in UNION {{<<q, d>> : d \in Range(An[known[q]].defs)} : q \in {x \in DOMAIN known : x # p /\ known[x] # None}}}
NamesKnown(p, known) == {x.n : x \in ElsewhereOf(p, known)}

MissingIn(c, disk, cfg) ==
  {[s |-> r.s, e |-> r.e, m |-> "missing"] : r \in {x \in Range(RefsIn[c]) : Missing(x.n, Tree(disk, cfg))}}
\* what is published for a file with text c
DiagsOf(p, c, known, disk, cfg) ==
  MissingIn(c, disk, cfg) \cup
  (IF p \in Sources THEN {} ELSE Diagnostics(An[c], NamesKnown(p, known), cfg.hide))

\* what a request about a file is answered
UseAnswers(p, known) ==
  LET a == An[known[p]]
      else == ElsewhereOf(p, known)
  IN IF p \in Sources THEN {}
     ELSE { [ s |-> u.s, e |-> u.e,
              own |-> Target(a, u),
              others |-> {[f |-> x.f, s |-> x.s, e |-> x.e] : x \in {y \in else : y.n = u.n}},
              hover |-> Hover(a, u, NamesKnown(p, known)) ] : u \in {x \in Range(a.uses) : x.r = "var"} }
HoleAnswers(p, known) ==
  LET a == An[known[p]]
      back == {x \in ElsewhereOf(p, known) : x.k = "backend"}
  IN IF p \in Sources THEN {}
     ELSE { [ at |-> h.at,
              names |-> {d.n : d \in VisibleAt(a, h.at, h.sc)},
              backend |-> {[n |-> x.n, f |-> x.f, s |-> x.s] : x \in back} ] : h \in Range(a.holes) }
View(p, known) ==
  IF known[p] = None THEN [path |-> p, known |-> FALSE]
  ELSE [ path |-> p, known |-> TRUE, content |-> known[p], source |-> p \in Sources,
         symbols |-> Symbols(An[known[p]]),
         refs |-> IF p \in Sources THEN {[n |-> r.n, s |-> r.s, e |-> r.e] : r \in Range(RefsIn[known[p]])} ELSE {},
         uses |-> UseAnswers(p, known), holes |-> HoleAnswers(p, known) ]

(* ------------------------------ transitions ---------------------------- *)
\* What is known after the workspace is read, with open documents as they are.
Fresh(disk, open, cfg) ==
  [p \in DOMAIN disk |-> IF p \in Nothing THEN None
                         ELSE IF open[p] # None THEN open[p]
                         ELSE IF Indexed(p, cfg) THEN disk[p] ELSE None]
\* Everything that is known as a template or open is published then, and what is gone is cleared.
AllPublished(before, known, open, disk, cfg) ==
  [p \in {x \in DOMAIN known : \/ known[x] # None /\ (x \in Templates_ \/ open[x] # None)
                               \/ known[x] = None /\ before[x] # None} |->
     IF known[p] = None THEN {} ELSE DiagsOf(p, known[p], known, disk, cfg)]
\* One document is analysed.
OnePublished(p, known, disk, cfg) == p :> IF known[p] = None THEN {} ELSE DiagsOf(p, known[p], known, disk, cfg)
=============================================================================
