--------------------------------- MODULE Node ---------------------------------
(***************************************************************************)
(* The Node binding: fragments of templates and of Python that lie inside  *)
(* of other files, hints about names, and what every call returns.         *)
(*                                                                         *)
(* A fragment is a text on its own.  Whoever adds it says where it starts  *)
(* in the file around it: the column when adding, the line with each call. *)
(* Results are places of the file around it.                               *)
(***************************************************************************)
EXTENDS Template, Docs, Json, CSV, IOUtils, Randomization

CONSTANTS Names_,      \* files, as they are called by the caller
          Hints,       \* names of hints
          Pieces,      \* pieces of fragments in use
          Steps, Random, OutFile

VARIABLES frags,       \* fragments added: [f, id, ext] -> [items, col]
          acts,        \* actions of each hint
          vars_,       \* names of each saved hint
          log
vars == <<frags, acts, vars_, log>>

Pick(S) == IF Random /\ S # {} THEN {RandomElement(S)} ELSE S

(* ------------------------------ fragments ------------------------------ *)
E_(toks) == Item("leaf", <<K("{{"), K(" ")>> \o toks \o <<K(" "), K("}}")>>)
T_(op, toks) == Item(op, <<K("{%"), K(" ")>> \o toks \o <<K(" "), K("%}")>>)
Dotted(n) == Mk(n, "dotted", "")
Line(toks) == Item("leaf", toks \o <<NL>>)

PieceOf(x) ==
  CASE x = "use p"    -> <<E_(<<V("p")>>)>>
    [] x = "field"    -> <<E_(<<V("p"), K("."), F("f")>>)>>
    [] x = "fields"   -> <<E_(<<V("p"), K("."), F("f"), K("."), F("g"), K(" | "), Fl("upper")>>)>>
    [] x = "more"     -> <<E_(<<V("p"), K("."), F("f"), K(" ~ "), V("zed"), K(" ~ "), V("pq")>>)>>
    [] x = "call"     -> <<E_(<<V("a"), K("("), V("zed"), K(", kw="), V("p"), K("."), F("f"), K(")")>>)>>
    [] x = "test"     -> <<E_(<<V("q"), K(" "), K("is"), K(" "), Te("odd")>>)>>
    [] x = "set"      -> <<T_("leaf", <<K("set"), K(" "), D("p", "set"), K(" = "), V("q")>>)>>
    [] x = "set zed"  -> <<T_("leaf", <<K("set"), K(" "), D("zed", "set"), K(" = "), V("a"), K("."), F("b")>>)>>
    [] x = "for"      -> <<T_("open", <<K("for"), K(" "), D("r", "for_key"), K(", "), D("q", "for_value"), K(" "), K("in"), K(" "), V("a"), K("."), F("b")>>),
                           E_(<<V("q")>>), Item("leaf", <<NL>>), E_(<<H("var")>>), T_("close", <<K("endfor")>>)>>
    [] x = "with"     -> <<T_("open", <<K("with"), K(" "), D("pq", "with"), K(" = "), V("p")>>), E_(<<V("pq"), K("."), F("f")>>), Item("leaf", <<K("é")>>),
                           E_(<<H("var")>>), T_("close", <<K("endwith")>>)>>
    [] x = "macro"    -> <<T_("open", <<K("macro"), K(" "), D("a", "macro"), K("("), D("p", "param"), K(")")>>), Item("leaf", <<NL, K("  ")>>),
                           E_(<<V("p")>>), E_(<<H("var")>>), T_("close", <<K("endmacro")>>)>>
    [] x = "if"       -> <<T_("open", <<K("if"), K(" "), V("zed")>>), E_(<<V("p"), K("."), F("f")>>), T_("close", <<K("endif")>>)>>
    [] x = "hole"     -> <<E_(<<H("var")>>)>>
    [] x = "filter"   -> <<E_(<<V("q"), K(" | "), H("filter")>>)>>
    [] x = "line"     -> <<Item("leaf", <<NL>>)>>
    [] x = "text"     -> <<Item("leaf", <<K("<p>"), NL, K("日"), K("  ")>>)>>
    [] x = "py dot"   -> <<Line(<<K("x = "), Dotted("p.f")>>)>>
    [] x = "py dots"  -> <<Line(<<Dotted("p.f.g"), K("("), Dotted("a.b"), K(", p)")>>)>>
    [] x = "py plain" -> <<Line(<<K("y = p + zed")>>)>>
    [] x = "py other" -> <<Line(<<K("é"), K(" = "), Dotted("p.q"), K("["), Dotted("a.b"), K("]")>>)>>
    [] x = "py give"  -> <<Line(<<K("t.render("), B("p"), K("=1, "), B("w"), K("=q)")>>)>>
    [] x = "py lines" -> <<Line(<<K("z = ("), [Mk("p.", "head", "") EXCEPT !.n = "p.f"], NL, K("   "), Mk("f", "tail", ""), K(" + "), Dotted("a.b"), K(")")>>)>>
    [] x = "py block" -> <<Line(<<K("def f(p):")>>), Line(<<K("    return "), Dotted("a.b")>>)>>
    [] x = "pad"      -> <<Item("leaf", <<K("   ")>>)>>
    [] x = "py pad"   -> <<Item("leaf", <<K("  ")>>)>>
    [] x = "py none"  -> <<Line(<<>>)>>

PyPieces == {"py dot", "py dots", "py plain", "py other", "py give", "py none", "py lines", "py block", "py pad"}
ItemsOf(xs) == FoldLeft(LAMBDA acc, x : acc \o PieceOf(x), <<>>, xs)
An(fr) == Analyse(ItemsOf(fr.xs))
TextOf(xs) == Analyse(ItemsOf(xs)).txt

\* a place of a fragment as one of the file around it
Shift(pt, line, col) ==
  LET r == pt \div Row  c == pt % Row IN (line + r) * Row + c + (IF r = 0 THEN col ELSE 0)

(* -------------------------------- links -------------------------------- *)
\* Everything a fragment speaks of, by its whole name.
ObjectsOf(a) ==
  { [ n |-> FoldLeft(LAMBDA acc, j : IF a.uses[j].root = i /\ j # i THEN acc \o "." \o a.uses[j].n ELSE acc,
                     a.uses[i].n, [j \in 1..Len(a.uses) |-> j]),
      s |-> a.uses[i].s, e |-> a.uses[Max({j \in 1..Len(a.uses) : a.uses[j].root = i})].e, r |-> a.uses[i].r ]
    : i \in {x \in 1..Len(a.uses) : a.uses[x].r = "var"} }

\* the dotted names of Python, some of them written over two lines: a head, that
\* knows the whole name, and a tail
PyObjects(xs) ==
  LET toks == FoldLeft(LAMBDA acc, i : acc \o i.toks, <<>>, ItemsOf(xs))
      step(acc, tok) == [ pt |-> Advance(acc.pt, tok),
                          head |-> IF tok.r = "head" THEN [n |-> tok.n, s |-> acc.pt] ELSE acc.head,
                          out |-> CASE tok.r = "dotted" -> acc.out \cup {[n |-> tok.n, s |-> acc.pt, e |-> acc.pt + tok.w]}
                                    [] tok.r = "tail" -> acc.out \cup {[n |-> acc.head.n, s |-> acc.head.s, e |-> acc.pt + tok.w]}
                                    [] OTHER -> acc.out ]
  IN FoldLeft(step, [pt |-> 0, head |-> [n |-> "", s |-> 0], out |-> {}], toks).out

RootOf(n) == LET i == {j \in 1..Len(n) : SubSeq(n, j, j) = "."} IN IF i = {} THEN n ELSE SubSeq(n, 1, Min(i) - 1)
ActionsOf(h) == IF h \in DOMAIN acts THEN acts[h] ELSE <<>>

Links(k, fr, line) ==
  LET objs == IF k.ext = "py" THEN PyObjects(fr.xs)
              ELSE {[n |-> o.n, s |-> o.s, e |-> o.e, m |-> RootOf(o.n)] : o \in ObjectsOf(An(fr))}
  IN {[n |-> IF k.ext = "py" THEN o.n ELSE o.m, s |-> Shift(o.s, line, fr.col), e |-> Shift(o.e, line, fr.col)] :
        o \in {x \in objs : x.n \in Range(ActionsOf("temp"))}}

(* ------------------------------- answers ------------------------------- *)
SavedNames == UNION {Range(vars_[h]) : h \in DOMAIN vars_}
\* names known from elsewhere: of other fragments, and the roots of those of saved hints
Known(k, fs) ==
  UNION {{d.n : d \in Range(An(fs[x]).defs)} : x \in DOMAIN fs \ {k}} \cup {RootOf(n) : n \in SavedNames}

\* the first action about a name describes it
Describes(n) == SelectSeq(ActionsOf("temp"), LAMBDA x : RootOf(x) = n)
HoverOf(k, fs, a, u) ==
  LET kind == Hover(a, u, Known(k, fs)) IN
  IF kind = "none" \/ kind \in {"filter", "test"} THEN [kind |-> kind, by |-> ""]
  ELSE [kind |-> kind, by |-> IF Describes(u.n) # <<>> THEN Head(Describes(u.n)) ELSE ""]

Has(s, p) == Len(p) = 0 \/ \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
\* hints that are places, and are asked for
HintPlaces(n) ==
  {[h |-> h, n |-> x] : <<h, x>> \in UNION {{<<h, x>> : x \in {y \in Range(vars_[h]) : RootOf(y) = n}} :
                                              h \in {y \in DOMAIN vars_ : Has(y, "temp") /\ Has(y, ":")}}}
BackendNames(fs) ==
  UNION {{d.n : d \in {y \in Range(An(fs[x]).defs) : y.k = "backend"}} : x \in DOMAIN fs} \cup SavedNames

\* a name somebody has begun is completed from the hints of the file and the temporary ones,
\* once there are any of the file
Begun(f, prefix) ==
  IF f \notin DOMAIN vars_ THEN [none |-> TRUE, names |-> {}]
  ELSE [none |-> FALSE,
        names |-> {x \in Range(vars_[f]) \cup (IF "temp" \in DOMAIN vars_ THEN Range(vars_["temp"]) ELSE {}) : Has(x, prefix)}]

View(k, fs, line) ==
  LET fr == fs[k]
      a == An(fr)
      sh(pt) == Shift(pt, line, fr.col)
  IN [ k |-> k, line |-> line,
       defs |-> {[n |-> d.n, k |-> d.k, s |-> sh(d.s), e |-> sh(d.e)] : d \in Range(a.defs)},
       uses |-> IF k.ext = "py" THEN {} ELSE
         { LET t == Target(a, u) IN
           [ n |-> u.n, r |-> u.r, d |-> u.d, s |-> sh(u.s), e |-> sh(u.e),
             hover |-> HoverOf(k, fs, a, u),
             own |-> IF t.found THEN [found |-> TRUE, s |-> sh(t.s), e |-> sh(t.e)] ELSE [found |-> FALSE],
             hints |-> IF u.r = "var" THEN HintPlaces(u.n) ELSE {},
             begun |-> IF Completable(u) THEN [i \in 1..Len(u.n) |-> Begun(k.f, SubSeq(u.n, 1, i))] ELSE <<>> ]
           : u \in {x \in Range(a.uses) : x.r \in {"var", "filter", "test"}} },
       holes |-> { [ at |-> sh(h.at), ctx |-> h.ctx,
                     names |-> {d.n : d \in VisibleAt(a, h.at, h.sc)},
                     acts |-> Range(ActionsOf("temp_")), backend |-> BackendNames(fs) ] : h \in Range(a.holes) } ]

\* a line for each fragment, as the caller has it
LineOf(k) == k.id * 7 + Len(k.f)
ViewAll(fs) == IF OutFile = "" THEN {} ELSE {View(k, fs, LineOf(k)) : k \in DOMAIN fs}

(* -------------------------------- calls -------------------------------- *)
\* what a text speaks of
Count(xs) == LET u == Analyse(ItemsOf(xs)).uses IN Cardinality({i \in 1..Len(u) : u[i].r \in {"var", "filter", "test"}})
Keys == [f : Names_, id : 1..3, ext : {"jinja", "py"}]
Init == frags = <<>> /\ acts = <<>> /\ vars_ = <<>> /\ log = <<>>
Note(op, x) == log' = Append(log, [op |-> op, x |-> x, view |-> ViewAll(frags)', links |-> {}])

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Room == Len(log) < Steps
Contents(k) == IF k.ext = "py" THEN Pieces \cap PyPieces ELSE Pieces \ PyPieces
AddOne ==
  Room /\ \E k \in Pick(Keys) : \E n \in Pick(0..3) : \E c \in Pick({0, 0, 1, 9}) :
    \E xs \in IF Random THEN {[i \in 1..n |-> RandomElement(Contents(k))]} ELSE {<<x>> : x \in Contents(k)} :
      /\ frags' = (k :> [xs |-> xs, col |-> c]) @@ frags
      /\ UNCHANGED <<acts, vars_>>
      /\ log' = Append(log, [op |-> "add", x |-> [k |-> k, text |-> TextOf(xs), col |-> c, line |-> LineOf(k), count |-> Count(xs)],
                             view |-> ViewAll(frags)', links |-> Links(k, frags'[k], LineOf(k))])

ActionNames == {"p", "pq", "p.f", "p.f.g", "a.b", "zed", "q", "w", "é"}
Lists(h) == IF Random THEN {[i \in 1..n |-> RandomElement(ActionNames)] : n \in {RandomElement(0..3)}} ELSE {<<>>, <<"p.f">>, <<"p", "p.f">>}
Unique(s) == SelectSeq([i \in 1..Len(s) |-> IF \E j \in 1..(i - 1) : s[j] = s[i] THEN "" ELSE s[i]], LAMBDA x : x # "")
SaveHint ==
  Room /\ \E h \in Pick(Hints) : \E l \in Lists(h) :
    /\ acts' = (h :> Unique(l)) @@ acts
    /\ vars_' = (h :> Unique(l)) @@ vars_
    /\ UNCHANGED frags
    /\ Note("save", [h |-> h, names |-> Unique(l)])
AddHints ==
  Room /\ \E h \in Pick(Hints) : \E l \in Lists(h) :
    /\ acts' = (h :> Unique(l)) @@ acts
    /\ UNCHANGED <<frags, vars_>>
    /\ Note("hints", [h |-> h, names |-> Unique(l)])
Nothing ==
  Room /\ \E h \in Pick(Hints) : \E op \in Pick({"save", "hints"}) :
    UNCHANGED <<frags, acts, vars_>> /\ Note(op, [h |-> h])
RemoveHint ==
  Room /\ \E h \in Pick(Hints) :
    /\ acts' = Without(acts, h) /\ vars_' = Without(vars_, h)
    /\ UNCHANGED frags
    /\ Note("remove", [h |-> h])
DeleteAll ==
  Room /\ \E f \in Pick(Names_) :
    /\ frags' = [k \in {x \in DOMAIN frags : x.f # f} |-> frags[k]]
    /\ UNCHANGED <<acts, vars_>>
    /\ Note("delete", [f |-> f])

Next == AddOne \/ (Random /\ AddOne) \/ (Random /\ AddOne) \/ SaveHint \/ AddHints \/ Nothing \/ RemoveHint \/ DeleteAll
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
\* Moving a fragment moves its results, and nothing else about them.
Moves ==
  \A k \in DOMAIN frags : \A l \in {5} : \A c \in {0, 3} :
    LET plain == View(k, [frags EXCEPT ![k].col = 0], 0)
        moved == View(k, [frags EXCEPT ![k].col = c], l)
        sh(pt) == Shift(pt, l, c)
    IN /\ moved.defs = {[d EXCEPT !.s = sh(d.s), !.e = sh(d.e)] : d \in plain.defs}
       /\ {[s |-> u.s, h |-> u.hover] : u \in moved.uses} = {[s |-> sh(u.s), h |-> u.hover] : u \in plain.uses}
\* What another fragment holds only matters by the names it defines.
Apart ==
  \A k, j \in DOMAIN frags : k # j =>
    LET now == View(k, frags, 0)
        alone == View(k, Without(frags, j), 0)
    IN /\ now.defs = alone.defs
       /\ {[s |-> u.s, own |-> u.own, hints |-> u.hints, begun |-> u.begun] : u \in now.uses}
            = {[s |-> u.s, own |-> u.own, hints |-> u.hints, begun |-> u.begun] : u \in alone.uses}
\* Without hints there are no links.
Linked == \A i \in 1..Len(log) : (log[i].op = "add" /\ \A j \in 1..i : log[j].op = "add") => log[i].links = {}
\* Deleting a file deletes its fragments and no other.
Deletes == [][log'[Len(log')].op = "delete" =>
                LET f == log'[Len(log')].x.f IN
                DOMAIN frags' = {k \in DOMAIN frags : k.f # f} /\ \A k \in DOMAIN frags' : frags'[k] = frags[k]]_vars

Emit == (OutFile # "" /\ Len(log) = Steps) => CSVWrite("%1$s", <<ToJson([log |-> log])>>, OutFile)
=============================================================================
