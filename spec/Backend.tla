------------------------------- MODULE Backend -------------------------------
(***************************************************************************)
(* Backend sources, made of statements that give names to templates, load  *)
(* templates, or only look like it.  What they give is what their tokens   *)
(* say: B is a name given to templates, Ref a template loaded.             *)
(***************************************************************************)
EXTENDS Refs, Json, CSV, IOUtils, Randomization

CONSTANTS Lang,       \* "rust", "python"
          MaxItems, Random, OutFile

VARIABLES files,      \* on the disk when the server starts
          doc,        \* opened after that
          done
vars == <<files, doc, done>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

Names == {"v", "w", "user", "page_title", "context_id", "my_context", "globals2"}
Templates == {"base.html", "sub/m.html"}
Loaded == {"base.html", "sub/m.html", "nope.html", "sub/nope.html", "v", "w.html"}

\* a name inside of quotes, which are part of its place in Rust
BQ(n) == [t |-> "\"" \o n \o "\"", n |-> n, w |-> Bytes(n) + 2, r |-> "var", d |-> "backend"]
St(toks) == Item("leaf", <<X("    ")>> \o toks \o <<NL>>)
One(t) == Item("leaf", <<X("    "), X(t), NL>>)

(* --------------------------------- Rust -------------------------------- *)
RustGives(n, m, k) ==
  { St(<<X("let c = context! { "), B(n), X(" => 1 };")>>),
    St(<<X("let c = context!("), B(n), X(" => \"é\", "), B(m), X(");")>>),
    St(<<X("let c = context![ "), B(n), X(", "), B(m), X(" => 11 + "), B(k), X(", ];")>>),
    St(<<X("let c = minijinja::context! { ."), X("."), B(n), X(" };")>>),
    St(<<X("let c = context! {"), NL, X("        "), B(n), X(" => \"v\","), NL, X("        "), B(m), X(","), NL, X("    };")>>),
    St(<<X("let c = context! { "), B(n), X(" => context! { "), B(m), X(" => 1 }, "), B(k), X(" };")>>),
    St(<<X("println!(\"{}\", t.render(context! { "), B(n), X(" => 1 }));")>>),
    St(<<X("log!(v, minijinja::context! { "), B(n), X(" => [1, 2] })"), X(";")>>),
    St(<<X("let c = context! {};")>>),
    St(<<X("let c = |x: u8| context! { "), B(n), X(" => "), B("x"), X(" };")>>),
    St(<<X("match 1 { 1 => context! { "), B(n), X(" }, _ => context! { "), B(m), X(" => true } };")>>),
    St(<<X("jinja.add_global("), BQ(n), X(", 1);")>>),
    St(<<X("jinja.add_function("), BQ(n), X(", "), X("w);")>>),
    St(<<X("jinja.add_filter("), BQ(n), X(", filters::upper);")>>),
    St(<<X("jinja.add_filter("), NL, X("        "), BQ(n), X(","), NL, X("        |v: String| v,"), NL, X("    );")>>) }
RustLoads(r) ==
  { St(<<X("let t = jinja.get_template("), r, X(").unwrap();")>>),
    St(<<X("let t = get_template("), r, X(");")>>),
    St(<<X("render_jinja("), r, X(", 1);")>>),
    St(<<X("app.state().render_jinja(&v, "), r, X(");")>>) }
RustBoth(r, n) ==
  { St(<<X("render_jinja("), r, X(", context! { "), B(n), X(" => 1 });")>>),
    St(<<X("jinja.get_template("), r, X(").unwrap().render(context! { "), B(n), X(" }).unwrap();")>>) }
RustOthers ==
  { One("let v = 1;"), One("println!(\"{} {w}\", v);"), One("let x = vec![v, w];"), One("// context! { v => 1 }"),
    One("/* context! { w => 1 } */"), One("let s = \"context! { user => 1 }\";"), One("let s = r#\"jinja.add_global(\"v\", 1)\"#;"),
    One("user.page_title(v, w);"), One("env.add_global(\"user\", 1);"), One("jinja.add_test(\"v\", w);"),
    One("jinja.remove_global(\"w\");"), One("jinja.add_globals(\"page_title\");"), One("add_filter(\"user\", v);"),
    One("assert_eq!(v, w, \"é\");"), One("fn inner(v: u8) -> u8 { v }"), One("#[derive(Debug, Clone)] struct S { user: u8 }"),
    One("match v { w => (), _ => () }"), One("other(\"nope.html\", \"get_template\");"), One("context(v, w);"),
    One("macro_rules! m { ($v:ident) => { $v } }"),
    One("jinja2.add_global(\"v\", 1);"), One("my_jinja.add_filter(\"w\", 1);"), One("jinja_env.add_function(\"user\", 1);"),
    One("jinja.add_global_v(\"v\", 1);"), One("jinja.try_add_filter(\"w\", 1);"), One("jinja.add_functions(\"user\", f);"),
    One("jinja.add_template(\"page_title\", \"v\");"), One("let c = contexts! { v => 1 };"), One("let c = my_context! { w => 1 };"),
    One("let c = context2!(user => 1);"), One("let c = context { v: 1 };"), One("get_templates(\"nope.html\");"),
    One("env.forget_template(\"nope.html\");"), One("render_jinja2(\"nope.html\");"), One("prerender_jinja(\"nope.html\");"),
    One("x.get_template_names(\"nope.html\");"), One("jinja.globals(\"v\", \"w\");"), One("use user::page_title as v;"),
    One("const V: &str = \"v\";"), One("struct T<'v> { w: &'v u8 }"), One("let c = Context! { v => 1 };"), One("jinja.add_global(v, w);"), Item("leaf", <<NL>>) }

(* -------------------------------- Python ------------------------------- *)
Q1(n) == <<X("'"), B(n), X("'")>>
Q2(n) == <<X("\""), B(n), X("\"")>>
PythonGives(n, m, k) ==
  { St(<<X("render_template(\"x.html\", "), B(n), X("=1)")>>),
    St(<<X("return flask.render_template(\"é\", "), B(n), X("=v, "), B(m), X("=w)")>>),
    St(<<X("t.render("), B(n), X(" = 1, "), B(m), X("=dict(k=2))")>>),
    St(<<X("render("), B(n), X("=render_template("), B(m), X("=1), "), B(k), X("=[user])")>>),
    St(<<X("app.env.t.render("), B(n), X("=1)")>>),
    St(<<X("render_template("), NL, X("        'x',"), NL, X("        "), B(n), X("=1,"), NL, X("        "), B(m), X("=2,"), NL, X("    )")>>),
    St(<<X("async def f(): return await t.render("), B(n), X("=1)")>>),
    St(<<X("if v: s = [t.render("), B(n), X("=i) for i in w]")>>),
    St(<<X("jinja_env.globals[")>> \o Q1(n) \o <<X("] = 1")>>),
    St(<<X("jinja_env.globals[")>> \o Q2(n) \o <<X("] = v")>>),
    St(<<X("jinja_env.filters[")>> \o Q1(n) \o <<X("] = lambda v: v")>>),
    St(<<X("jinja_env.filters[")>> \o Q2(n) \o <<X("] = jinja_env.globals[")>> \o Q2(m) \o <<X("] = 1")>>),
    St(<<X("render(**v, "), B(n), X("=1)")>>),
    St(<<X("render("), B(n), X("=user.page_title, "), B(m), X("=v + 1, "), B(k), X("=v if w else user)")>>),
    St(<<X("t.render("), B(n), X("=lambda v: w, "), B(m), X("=not v, "), B(k), X("=f\"{w}\")")>>),
    St(<<X("render_template('x', "), B(n), X("=(v, w), "), B(m), X("={'v': w}, "), B(k), X("=[*v])")>>),
    St(<<X("render("), B(n), X("=None, "), B(m), X("=-1.5, "), B(k), X("=v[w])")>>),
    St(<<X("render("), B(n), X("=(w), "), B(m), X("={v, w}, "), B(k), X("=(i for i in v))")>>),
    St(<<X("render("), B(n), X("=v and w, "), B(m), X("=v < 1, "), B(k), X("=[w for w in v],)")>>),
    St(<<X("async def g(): t.render("), B(n), X("=await w, "), B(m), X("=True)")>>) }
PythonLoads(r) ==
  { St(<<X("t = jinja.get_template("), r, X(")")>>),
    St(<<X("t = get_template("), r, X(")")>>),
    St(<<X("return render_jinja("), r, X(", 1)")>>) }
PythonBoth(r, n) ==
  { St(<<X("env.get_template("), r, X(").render("), B(n), X("=1)")>>),
    St(<<X("get_template("), r, X(").render("), B(n), X("=\"nope.html\")")>>) }
PythonOthers ==
  { One("v = 1"), One("foo(v=1, w=2)"), One("def inner(v, w=1): return user"), One("# render(v=1)"), One("s = 'render(v=1)'"),
    One("render_template_string('x', user=1)"), One("d = dict(page_title=1)"), One("render(**v)"), One("render(v, w)"),
    One("f = lambda w=1: w"), One("s = f\"{user} é\""), One("'''docs: render(v=1)'''"), One("env.globals['v'] = 1"),
    One("jinja_env.tests['w'] = 1"), One("jinja_env.globals.update(user=1)"), One("renders(v=1)"), One("t.rerender(w=1)"),
    One("jinja_env['page_title'] = 1"),
    One("my_jinja_env.globals['v'] = 1"), One("jinja_env2.filters['w'] = 1"), One("jinja_envs.globals['user'] = 1"),
    One("jinja_env.globals_['v'] = 1"), One("jinja_env.filters2['w'] = 1"), One("jinja_env.my_globals['user'] = 1"),
    One("jinja_env.policies['page_title'] = 1"), One("jinja_env.filter['v'] = w"), One("globals['v'] = 1"), One("jinja_env.globals[w] = 1"),
    One("render_templates(v=1)"), One("prerender(w=1)"), One("render_template2('x', user=1)"), One("t.render_async(v=1)"),
    One("get_templates(\"nope.html\")"), One("env.forget_template(\"nope.html\")"), One("render_jinja2('nope.html')"),
    One("prerender_jinja('nope.html')"), One("x.get_template_names('nope.html')"), One("import user as v, w"),
    One("for page_title in v: w = page_title"), One("with v as w: pass"), One("v: int = 1"), One("d = {'v': 1, 'w': user}"),
    One("print(v, w, sep='x')"), Item("leaf", <<X("    @v(w=1)"), NL, X("    def decorated(user=1): pass"), NL>>), One("other(\"nope.html\", 'get_template')"), One("class C(user): pass"), Item("leaf", <<NL>>) }

(* ------------------------------- sources ------------------------------- *)
Source(body) ==
  IF Lang = "rust" THEN <<Item("leaf", <<X("fn page() {"), NL>>)>> \o body \o <<Item("leaf", <<X("}"), NL>>)>>
  ELSE <<Item("leaf", <<X("def page():"), NL>>), One("pass")>> \o body

Statement ==
  \E n \in Pick(Names), m \in Pick(Names), k \in Pick(Names) : \E l \in Pick(Loaded) : \E q \in Pick(IF Lang = "rust" THEN {"\""} ELSE {"\"", "'"}) :
    LET r == Ref(q, l)
        gives == IF Lang = "rust" THEN RustGives(n, m, k) ELSE PythonGives(n, m, k)
        loads == IF Lang = "rust" THEN RustLoads(r) ELSE PythonLoads(r)
        both == IF Lang = "rust" THEN RustBoth(r, n) ELSE PythonBoth(r, n)
        others == IF Lang = "rust" THEN RustOthers ELSE PythonOthers
    IN \E kind \in Pick(1..6) :
       \E i \in Pick(CASE kind \in {1, 2} -> gives [] kind = 3 -> loads [] kind = 4 -> both [] OTHER -> others) :
         doc' = Append(doc, i)

Init == files = <<>> /\ doc = <<>> /\ done = FALSE
Room == ~done /\ Len(doc) < MaxItems
Add == Room /\ Statement /\ UNCHANGED <<files, done>>
\* what was written so far is a file on the disk, the rest is another one
Store == ~done /\ Len(files) < 2 /\ Len(doc) >= 2 /\ files' = Append(files, doc) /\ doc' = <<>> /\ UNCHANGED done
Finish == ~done /\ (Random => Len(doc) >= MaxItems) /\ done' = TRUE /\ UNCHANGED <<files, doc>>
Next == Add \/ Store \/ Finish
Spec == Init /\ [][Next]_vars

(* ---------------------------- what they give --------------------------- *)
Given(body) == Analyse(Source(body)).defs
Exact(body) ==
  LET a == Analyse(Source(body)) IN
    \* one line each, in order
    /\ \A i \in 1..Len(a.defs) : a.defs[i].s \div Row = a.defs[i].e \div Row
    /\ \A i \in 1..(Len(a.defs) - 1) : a.defs[i].e <= a.defs[i + 1].s
    /\ \A r \in Range(RefsOf(Source(body))) : Missing(r.n, Templates) <=> r.n \notin Templates
Sound == Exact(doc) /\ \A i \in 1..Len(files) : Exact(files[i])

File(body) ==
  LET a == Analyse(Source(body))
      refs == RefsOf(Source(body))
  IN [ text |-> a.txt,
       names |-> [i \in 1..Len(a.defs) |-> [n |-> a.defs[i].n, s |-> a.defs[i].s, e |-> a.defs[i].e]],
       refs |-> [i \in 1..Len(refs) |-> [n |-> refs[i].n, s |-> refs[i].s, e |-> refs[i].e, missing |-> Missing(refs[i].n, Templates)]] ]

Case == [lang |-> Lang, probes |-> Names \cup {"x", "fn_none", "base", "nope"}, tree |-> Templates, doc |-> File(doc),
         files |-> [i \in 1..Len(files) |-> File(files[i])]]
Emit == (done /\ OutFile # "") => CSVWrite("%1$s", <<ToJson(Case)>>, OutFile)
=============================================================================
