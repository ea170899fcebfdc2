------------------------------- MODULE Template -------------------------------
(***************************************************************************)
(* The language of Jinja templates as a user of jinja-lsp sees it: what a  *)
(* template is made of, which names it defines, how far each definition    *)
(* reaches, and what the server has to answer about it.                    *)
(*                                                                         *)
(* A template is a sequence of items (text, expressions, tags); an item is *)
(* a sequence of tokens.  Everything below is a function of that sequence, *)
(* nothing is taken from the implementation.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

(* ------------------------------- tokens -------------------------------- *)
\* t text, n name, w width in bytes, r role, d what the token defines ("" nothing)
Width(t) == CASE t \in {"é", "ü"} -> 2 [] t \in {"日", "本"} -> 3 [] t = "𝄞" -> 4 [] OTHER -> Len(t)

Mk(t, r, d) == [t |-> t, n |-> t, w |-> Width(t), r |-> r, d |-> d]
K(t)  == Mk(t, "-", "")          \* punctuation, keywords, literals, plain text
NL    == Mk("\n", "nl", "")      \* a line break, the only token that starts a line
V(n)  == Mk(n, "var", "")        \* a variable
F(n)  == Mk(n, "field", "")      \* an attribute reached from the variable before it
L(n)  == Mk(n, "loose", "")      \* an attribute of something that isn't a variable
Fl(n) == Mk(n, "filter", "")
Te(n) == Mk(n, "test", "")
Str(n) == Mk(n, "str", "")
N(t)  == Mk(t, "inert", "")      \* a word that isn't a variable although it may look like one: there's nothing to say about it
D(n, kind) == Mk(n, "var", kind) \* a variable at the place that defines it
\* a place where somebody asks for completion, nothing is written there
H(ctx) == [t |-> "", n |-> "", w |-> 0, r |-> "hole", d |-> ctx]

B(n) == D(n, "backend")         \* a name the backend gives to templates

Kinds == {"for_key", "for_value", "set", "with", "macro", "param", "block"}

(* -------------------------------- items -------------------------------- *)
\* op: "leaf" stays in its scope, "open" starts one, "branch" ends one and
\* starts another, "close" ends one.
Item(op, toks) == [op |-> op, toks |-> toks]

(* ------------------------------- analysis ------------------------------ *)
\* A point is row * Row + column.
Row == 10000
Inf == 100000000

Start == [ pt |-> 0, txt |-> "", stack |-> <<1>>,
           scopes |-> << [par |-> 0, end |-> Inf] >>,
           defs |-> <<>>, uses |-> <<>>, holes |-> <<>>, root |-> 0, outer |-> 1, expr |-> FALSE ]

Advance(pt, tok) == IF tok.r = "nl" THEN ((pt \div Row) + 1) * Row ELSE pt + tok.w

Top(st) == st.stack[Len(st.stack)]

Token(st, tok) ==
  LET s == st.pt
      e == Advance(st.pt, tok)
      \* the name of a macro belongs to the scope around the macro
      sc == IF tok.d = "macro" THEN st.outer ELSE Top(st)
      root == IF tok.r = "field" THEN st.root ELSE Len(st.uses) + 1
      isUse == tok.r \in {"var", "field", "loose", "filter", "test", "inert"}
      n == Len(st.uses)
      \* the last use learns what comes right after it
      uses == IF n > 0 /\ st.uses[n].e = s /\ st.uses[n].nx = "" THEN [st.uses EXCEPT ![n].nx = tok.t]
              ELSE st.uses
  IN [st EXCEPT
        !.pt = e, !.txt = @ \o tok.t,
        !.holes = IF tok.r = "hole" THEN Append(@, [at |-> s, ctx |-> tok.d, sc |-> Top(st)]) ELSE @,
        !.root = IF isUse /\ tok.r # "field" THEN Len(st.uses) + 1 ELSE @,
        !.uses = IF isUse
                 THEN Append(uses, [n |-> tok.n, r |-> tok.r, d |-> tok.d, s |-> s, e |-> e,
                                    sc |-> Top(st), root |-> root, x |-> st.expr, nx |-> ""])
                 ELSE uses,
        !.defs = IF tok.d # "" /\ tok.r # "hole"
                 THEN Append(@, [n |-> tok.n, k |-> tok.d, s |-> s, e |-> e, sc |-> sc])
                 ELSE @]

EndScope(st) ==
  IF Len(st.stack) = 1 THEN st
  ELSE [st EXCEPT !.scopes[Top(st)].end = st.pt,
                  !.stack = SubSeq(@, 1, Len(@) - 1)]

NewScope(st) ==
  [st EXCEPT !.scopes = Append(@, [par |-> Top(st), end |-> Inf]),
             !.stack = Append(@, Len(st.scopes) + 1),
             !.outer = Top(st)]

OneItem(st, item) ==
  LET st1 == IF item.op \in {"branch", "close"} THEN EndScope(st) ELSE st
      st2 == IF item.op \in {"branch", "open"} THEN NewScope(st1) ELSE st1
      st3 == [st2 EXCEPT !.expr = item.toks[1].t = "{{"]
  IN FoldLeft(Token, st3, item.toks)

Analyse(items) == FoldLeft(OneItem, Start, items)

(* --------------------- what a definition reaches ----------------------- *)
\* Structural reading: a definition reaches what comes after it in its scope
\* and in the scopes inside of that one.
RECURSIVE Encloses(_, _, _)
Encloses(a, outer, inner) ==
  \/ outer = inner
  \/ inner # 0 /\ a.scopes[inner].par # 0 /\ Encloses(a, outer, a.scopes[inner].par)

Reaches(a, def, use) == def.s <= use.s /\ Encloses(a, def.sc, use.sc)

\* Positional reading, the one an implementation with intervals has.
EndOf(a, sc) == a.scopes[sc].end
Covers(a, def, use) == def.s <= use.s /\ use.s < EndOf(a, def.sc)

(* ----------------------------- diagnostics ----------------------------- *)

\* others: names known from other files, hide: undefined variables are hidden
Diagnosis(a, use, others, hide) ==
  LET same == {d \in Range(a.defs) : d.n = use.n /\ d.k # "block"}
  IN IF hide \/ use.r # "var" \/ use.d = "block" THEN "none"
     ELSE IF \E d \in same : Reaches(a, d, use) THEN "none"
     ELSE IF same # {} THEN "undefined"
     ELSE IF use.n \in others THEN "elsewhere"
     ELSE "undefined"

Diagnostics(a, others, hide) ==
  {[s |-> u.s, e |-> u.e, m |-> Diagnosis(a, u, others, hide)] :
      u \in {u \in Range(a.uses) : Diagnosis(a, u, others, hide) # "none"}}

(* --------------------------- go to definition -------------------------- *)
Latest(defs) == CHOOSE d \in defs : \A x \in defs : x.s <= d.s

\* The definition a variable refers to: the closest one before it that reaches it.
Target(a, use) ==
  LET c == {d \in Range(a.defs) : d.n = use.n /\ Reaches(a, d, use)}
  IN IF c = {} THEN [found |-> FALSE]
     ELSE [found |-> TRUE, s |-> Latest(c).s, e |-> Latest(c).e]

(* -------------------------------- hover -------------------------------- *)
Before(a, use) ==
  {d \in Range(a.defs) : d.n = use.n /\ d.k # "block" /\ Reaches(a, d, use) /\ d.e <= use.s}

Hover(a, use, others) ==
  IF use.r = "inert" THEN "none"
  ELSE IF use.r \in {"filter", "test"} THEN use.r
  ELSE IF Before(a, use) # {} THEN Latest(Before(a, use)).k
  ELSE IF use.n \in others THEN "backend"
  ELSE "none"

(* ------------------------------ completion ----------------------------- *)
\* A use is completed by what it starts with: names of the template, only in
\* expressions, and not where an attribute or a filter follows.
Completable(u) == u.r = "var" /\ u.x /\ u.nx \notin {".", "|"}

\* names a user can write at a point of scope sc
VisibleAt(a, pt, sc) ==
  {d \in Range(a.defs) : d.k # "block" /\ d.e <= pt /\ Encloses(a, d.sc, sc)}

(* ------------------------------- symbols ------------------------------- *)
Symbols(a) == {[n |-> d.n, k |-> d.k, s |-> d.s, e |-> d.e] : d \in Range(a.defs)}

(* --------------------------- model properties -------------------------- *)
\* The two readings of scope agree on every use of every definition.
ReadingsAgree(a) ==
  \A d \in Range(a.defs), u \in Range(a.uses) : Reaches(a, d, u) <=> Covers(a, d, u)

\* A scope lies inside of the one around it.
Nested(a) ==
  \A i \in 1..Len(a.scopes) :
     a.scopes[i].par # 0 => a.scopes[i].end <= a.scopes[a.scopes[i].par].end

\* Tokens that matter don't overlap and are in order.
Ordered(a) == \A i \in 1..(Len(a.uses) - 1) : a.uses[i].e <= a.uses[i + 1].s

\* Every definition is one of the variables and can be found from itself.
SelfFound(a) ==
  \A d \in Range(a.defs) :
     \E u \in Range(a.uses) : u.s = d.s /\ u.e = d.e /\ Target(a, u).found /\ Target(a, u).s = d.s

\* What isn't reported has a definition to go to, and the other way round.
DiagnosedIffUnreachable(a) ==
  \A u \in Range(a.uses) : (u.r = "var" /\ u.d # "block") =>
     (Diagnosis(a, u, {}, FALSE) = "none"
        <=> \E d \in Range(a.defs) : d.k # "block" /\ d.n = u.n /\ Reaches(a, d, u))

\* A name can be completed exactly where a use of it would not be reported.
CompletableIffDefined(a) ==
  \A u \in Range(a.uses) : u.r = "var" /\ u.d = "" =>
     ((\E d \in VisibleAt(a, u.s, u.sc) : d.n = u.n) <=> Diagnosis(a, u, {}, FALSE) = "none")

\* Hiding removes every report about a variable, knowing more files only
\* turns "undefined" into "elsewhere".
HidingHides(a) == Diagnostics(a, {}, TRUE) = {}
MoreFilesMoreInformed(a, names) ==
  LET plain == Diagnostics(a, {}, FALSE)
      known == Diagnostics(a, names, FALSE)
  IN {[x EXCEPT !.m = "?"] : x \in plain} = {[x EXCEPT !.m = "?"] : x \in known}
=============================================================================
