-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* The other files of a workspace: templates and backend sources next to   *)
(* the template somebody is editing.  They are made of tokens as well, so   *)
(* what they define, and where, is a result of the same analysis.          *)
(***************************************************************************)
EXTENDS Template

\* a name inside of quotes, which are part of the place but not of the name
BQ(n) == [t |-> "\"" \o n \o "\"", n |-> n, w |-> Len(n) + 2, r |-> "var", d |-> "backend"]
Tpl(path, items) == [path |-> path, lang |-> "jinja", items |-> items]
Src(path, lang, toks) == [path |-> path, lang |-> lang, items |-> <<Item("leaf", toks)>>]
StTag(op, toks) == Item(op, <<K("{%"), K(" ")>> \o toks \o <<K(" "), K("%}")>>)

TwoSets ==
  << Item("leaf", <<K("é"), NL>>),
     StTag("leaf", <<K("set"), K(" "), D("w", "set"), K(" = "), K("1")>>),
     StTag("leaf", <<K("set"), K(" "), D("w", "set"), K(" = "), K("2")>>) >>
OtherTemplates ==
  << Tpl("templates/other.jinja", TwoSets),
     Tpl("templates/sub/other.jinja", TwoSets),       \* the same once more
     Tpl("templates/sub/deep/main.jinja",
       << StTag("open", <<K("macro"), K(" "), D("va", "macro"), K("("), D("q", "param"), K(")")>>),
          StTag("close", <<K("endmacro")>>),
          StTag("open", <<K("block"), K(" "), D("b", "block")>>),
          StTag("close", <<K("endblock")>>) >>),
     Tpl("templates/z.j2",
       << StTag("open", <<K("for"), K(" "), D("w", "for_key"), K(" "), K("in"), K(" "), K("10")>>),
          StTag("close", <<K("endfor")>>) >>) >>

RustFiles ==
  << Src("src/a.rs", "rust",
       << K("fn page(jinja: &mut Env) {"), NL, K("    render_jinja(context! {"), NL, K("        "), B("w"), K(" => 1,"), NL,
          K("    });"), NL, K("    jinja.add_global("), BQ("va"), K(", 1);"), NL, K("}"), NL >>),
     Src("src/sub/b.rs", "rust",
       << K("fn other(jinja: &mut Env) {"), NL, K("    let vb = context! { "), B("w"), K(" => 1 };"), NL,
          K("    jinja.add_function("), BQ("fn_one"), K(", x);"), NL, K("    let v = 1;"), NL, K("}"), NL >>) >>

PythonPage ==
       << K("jinja_env.globals["), K("'"), B("va"), K("'"), K("] = 1"), NL, K("v = 1"), NL,
          K("def page():"), NL, K("    return render_template("), K("\"m.html\""), K(", "), B("w"), K("=v)"), NL >>
PythonFiles == << Src("src/a.py", "python", PythonPage), Src("src/sub/a.py", "python", PythonPage) >>

FilesOf(env) ==
  CASE env = "alone"     -> <<>>
    [] env = "templates" -> OtherTemplates
    [] env = "rust"      -> RustFiles
    [] env = "python"    -> PythonFiles
    [] env = "mixed"     -> OtherTemplates \o RustFiles
    [] env = "hidden"    -> OtherTemplates

\* what the analysis of the other files comes to: name, kind, file and place
Elsewhere(files) ==
  FoldLeft(LAMBDA acc, f : acc \o [i \in 1..Len(Analyse(f.items).defs) |->
             LET d == Analyse(f.items).defs[i] IN [n |-> d.n, k |-> d.k, f |-> f.path, s |-> d.s, e |-> d.e]],
           <<>>, files)

NamesOf(else) == {else[i].n : i \in 1..Len(else)}
FileTexts(files) == [i \in 1..Len(files) |-> [path |-> files[i].path, text |-> Analyse(files[i].items).txt]]
=============================================================================
