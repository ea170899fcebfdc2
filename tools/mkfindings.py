"""Writes /verif/known-findings.txt; the commits of the repairs come from /repo's log."""
import json, os, subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
M = {
"reparse a reopened document from scratch": ("P01", "reopening a document parsed its new text with the tree of the old text: wrong symbols, definitions and diagnostics"),
"end position of an edit follows": ("P01", "the end of an inserted text was looked up in the text before the insertion: wrong trees after multi-line edits, panics at the end of a document"),
"don't reuse an erroneous tree": ("P01", "after passing through a syntax error, the tree of a document depended on the history of its edits"),
"edit a document by chars": ("P01", "edits after multi-byte characters changed the wrong place or panicked"),
"clamp positions of an edit": ("P01", "a range past the end of a line or of the document panicked or changed the next line"),
"accept a change of the whole document": ("P01", "a change without a range was not applied"),
"order the ends of an edit": ("P01", "a range whose ends come in the other order edited the tree and the text differently"),
"negotiate utf-8 positions": ("P01", "columns are bytes, but the client was left to assume UTF-16: edits and ranges wrong on lines with non-ASCII text"),
"don't let the two tasks wait": ("P17", "a burst of 300 didSave notifications filled both channels, the two tasks waited for each other forever"),
"don't wait for room in the own channel": ("P17", "a burst of 300 didChangeConfiguration notifications made the main task wait for itself forever"),
"a change of one document doesn't cancel": ("P15", "an edit of one document cancelled the pending analysis of another"),
"a reset keeps the text of open": ("P19", "after a reset open documents were what's on the disk, unsaved new documents were forgotten, later edits went wrong"),
"read a closed document back": ("P22", "a document closed without saving stayed as it was in the editor"),
"escape the paths of uris": ("P14", "files in directories with spaces or non-ASCII names were indexed under another uri than the client's"),
"look for a template where": ("P09", "goto definition on a reference looked elsewhere than the check for missing templates"),
"goto looks for a template": ("P09", "goto definition on a reference looked elsewhere than the check for missing templates"),
"offer templates by their path": ("P10", "templates in subdirectories were offered by a name that is then missing"),
"don't overflow on the columns": ("P18", "completion panicked at some columns"),
"define the second variable": ("P02", "the second variable of a for loop wasn't defined"),
"only the first keyword": ("P02", "keywords inside of a statement (for x in y if z) opened a scope that was never closed"),
"close only scopes that": ("P02", "endset, endcall and endtrans ended the scope around them"),
"elif and else end": ("P02", "definitions of one branch reached the next"),
"the name of a block isn't": ("P03", "names of blocks were reported as variables defined elsewhere"),
"recognize a filter after": ("P02", "a filter after a call, an index or a string was reported as an undefined variable"),
"an attribute isn't a variable": ("P02", "attributes after an index or a call were reported as undefined variables"),
"keywords of an expression": ("P02", "if, else, and, or, in, is, none, True inside of an expression were reported as undefined variables"),
"values of with and macro": ("P04", "values of with statements and defaults of macro parameters counted as definitions"),
"the name of a keyword argument": ("P02", "names of keyword arguments were reported as undefined variables"),
"don't offer filters at the start": ("P08", "completion at the very start of a document offered filters"),
"offer tests wherever": ("P08", "no tests after `is` in an expression; tests in the text after a statement ending in `is`"),
"a template reference needs a file": ("P09", "a directory of that name counted as the template"),
"quotes inside of a template's name": ("P09", "the name of a template in a backend file was cut wrongly if it contained a quote"),
"filter the names of templates": ("P10", "completion in the string of a reference ignored the last character typed"),
"names inside of other macros": ("P12", "names inside of macros other than context! in the same file were given to templates"),
"whatever renders a template": ("P13", "only some receivers of a render call gave their arguments to templates"),
"only add_global, add_filter": ("P12", "any method whose name contains add_global etc. registered a name"),
"the name of a template that is loaded": ("P12", "the names of loaded templates counted as variables of a backend file (get_template(\"m.html\") defined m)"),
"analyse edited documents without": ("P15", "without a readable workspace (missing directory, unknown language) edits were never analysed"),
"hints that are no places": ("P21", "the Node process aborted when asked for the definition of a name saved with saveLinkHint under its default hint"),
"go to definitions in files with any name": ("P21", "gotoDefinition aborted the Node process for file names that aren't URLs, found nothing for names with other than URL characters"),
"nothing is known of positions above": ("P21", "hover, complete and gotoDefinition aborted the Node process for positions above the fragment"),
"deleting the fragments of a file leaves": ("P21", "deleteAll of a file deleted the fragments of all files whose name contains its name"),
"other fragments are not hints": ("P21", "gotoDefinition returned places of other fragments, with the wrong line, if the name of their file contains temp"),
"accepting a name in VS Code": ("P07", "accepting a completed name in VS Code wrote the typed part of it again instead of the name"),
"hover shows the hint of that name": ("P21", "hover on a showed the hint for abc"),
"tests are completed on the lines": ("P08", "no tests were completed on the lines after `is`: a statement whose test is on the next line"),
"ask clients to say when documents": ("P25", "the capabilities didn't say that opened and closed documents are of interest: a client that sticks to them never sends didOpen"),
"end with the client even if": ("P24", "the process stayed forever if its client went away while it was told what to log: initialized, didOpen, documentSymbol, end of the input at once"),
"the place of a filter starts": ("P07", "filters instead of variables at the end of the last argument of a call before a filter"),
}
M.update({
"handle messages in the order": ("P17", "more than 50 messages at once passed each other on their way to the main task: letters typed in the wrong order, documents closed after they were opened again"),
"the name of a filter block": ("P02", "the name of a filter block was reported as an undefined variable"),
"ignore missing and with context": ("P02", "ignore missing, with context and without context of an include were reported as undefined variables"),
"call blocks have parameters": ("P02", "parameters of a call block were reported as undefined: {% call(u) m() %}{{ u }}{% endcall %}"),
"what's in the brackets of a value": ("P02", "with and macro defined what stands in brackets of their values, and reported keyword arguments there: {% with a = f(b, c=1) %}{{ c }}"),
"the later names of a set": ("P05", "goto, hover and hints did nothing on the second name of {% set a, b = 1, 2 %}"),
"scoped, required, recursive and": ("P02", "scoped and required of a block, recursive of a loop and the name after endblock were reported as undefined variables"),
"setting an attribute": ("P04", "{% set ns.a = 1 %} was a definition of ns: a symbol, and where goto led to"),
"set and for can define more": ("P02", "the second name of {% set a, b = 1, 2 %} and the third of a loop were reported as undefined variables"),
"say that the snippets are snippets": ("P25", "snippets were offered as plain text: a client that goes by that inserts ${1:i} literally"),
})
M.update({
"imported modules and names": ("P02", 'imported modules and names were reported as undefined: {% import "m.jinja" as m %}{{ m.f() }}'),
"the variables of a translation": ("P02", "{% trans count=v %}{{ count }}{% endtrans %} reported count, twice"),
"break, continue, trimmed": ("P02", "{% for a in b %}{% break %}{% endfor %} reported break, {% trans trimmed %} trimmed"),
"a file whose URI is escaped": ("P14", "with c++ or @ in its path a template was known twice when the editor escapes these (VS Code does): opening it changed nothing in what other templates know"),
"templates were completed in front": ("P10", "completion at the very start of a document that begins with {% extends, import or from offered templates"),
"the contents of a raw block": ("P02", "the contents of a raw block were analysed: {% raw %}{{ x }}{% endraw %} reported x"),
})
X = os.path.join(os.path.dirname(os.path.abspath(__file__)), "more-fixes.json")
if os.path.exists(X):
    M.update({k: tuple(v) for k, v in json.load(open(X)).items()})
out = ["# Known findings and repaired defects of jinja-lsp, see DESIGN.md",
       "# finding: recorded, not repaired; the check of the property reproduces it and prints KNOWN-FINDING",
       "# fixed: repaired by a commit in /repo; suppresses nothing", ""]
for l in log:
    h, t = l.split(" ", 1)
    if not t.startswith("fix: "):
        continue
    k = [x for x in M if t[5:].startswith(x)]
    assert len(k) == 1, (t, k)
    out.append("fixed: property=%s %s %s" % (M[k[0]][0], h, M[k[0]][1]))
F = [
 dict(property="P01", kind="edit", utf8=False, text="\u00e9{{ v }}", changes=[{"range": {"start": {"line": 0, "character": 4}, "end": {"line": 0, "character": 5}}, "text": "w"}], right=[[4, 5, "undefined"]], what="a client that only counts in UTF-16 gets its edits applied at byte columns: \u00e9{{ v }}, replacing column 4"),
 dict(property="P01", kind="edit", text="a\u2028b\n{{ v }}", changes=[{"range": {"start": {"line": 1, "character": 3}, "end": {"line": 1, "character": 4}}, "text": "ww"}], right=[[10003, 10005, "undefined"]], what="U+2028, U+0085, VT, FF and a lone CR count as line ends when an edit is applied, not when positions are reported: a<U+2028>b<LF>{{ v }}, edit of line 1"),
 dict(property="P24", kind="exit", what="after shutdown and exit the process stays until its input ends: the library only looks for the end when it has read the next message"),
 dict(property="P10", kind="diagnostics", timeout=3, files={"templates/it's.html": ""}, text="{% include \"it's.html\" %}{{ v }}", right=[[27, 28, "undefined"]], what="the grammar of templates has no quotes inside of strings: accepting the template it's.html breaks the document"),
]
out.append("")
for f in F:
    out.append("finding: " + json.dumps(f, ensure_ascii=True))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.txt"), "w").write("\n".join(out) + "\n")
