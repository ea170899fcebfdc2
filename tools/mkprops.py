"""Writes /verif/properties.jsonl."""
import json, os
Q = "jinja-lsp-queries/src/"
S = "jinja-lsp/src/"
L = S + "lsp_files.rs"
C = S + "channels/lsp.rs"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("P01", "Edits keep the server's text the same as the editor's",
     "After any sequence of open, incremental edit, whole-document edit and close notifications, the server answers every request about a document exactly as it would if the document had just been opened with its final text, whenever that text has no syntax errors. Positions past the end of a line or of the document count as that end, the ends of a range may come in either order, several changes in one notification apply one after another, and text with multi-byte characters, CRLF and empty lines is no exception. Columns are UTF-8 bytes whenever the client offers that encoding.",
     ["histories", "inputs"], "all texts, all sequences of edits (ranges in and out of bounds, multi-line, multi-byte, batched), ending in a template without syntax errors",
     "The tests parse whole strings; none applies an edit, and what the incremental parser reuses depends on the whole history of edits.",
     [L, Q + "to_input_edit.rs", C],
     [("rope edit and incremental reparse", L + " did_change, input_edit"), ("position to byte and point conversion", Q + "to_input_edit.rs")],
     [("documents", "text of each document", L), ("trees", "syntax tree of each document", L)],
     ["publishDiagnostics", "documentSymbol", "hover", "definition"])
prop("P02", "A variable is reported as undefined exactly where nothing defines it",
     "In a template without syntax errors a use of a variable gets an \"Undefined variable\" warning on exactly its own range if and only if no definition of that name (for, set, with, macro, parameter of a macro or call block, import) precedes it in its scope or an enclosing one, and no other file knows the name. Attributes, filters, tests, keywords, literals, block names, keyword-argument names, the names imported things have elsewhere and the contents of raw blocks are never reported. The end of a for, with, macro, call, block, filter or autoescape block or of an if, elif or else branch ends the reach of what is defined inside of it.",
     ["programs"], "all templates without syntax errors: any nesting of tags, any expressions, any reuse of names",
     "Tests look at a few fixed templates; scope rules interact over nesting, shadowing, branches and expression shapes.",
     [Q + "lsp_helper.rs", Q + "search/definition.rs", Q + "search/objects.rs", Q + "search/queries.rs"],
     [("scope intervals of definitions", Q + "search/definition.rs"), ("uses of variables", Q + "search/objects.rs"), ("classification", Q + "lsp_helper.rs search_errors")],
     [("variables", "definitions of each file with their scopes", L)], ["publishDiagnostics"])
prop("P03", "Names other files define are told apart from unknown ones",
     "A variable its own template doesn't define is reported as information (\"defined in other file\") if some other template or backend file defines that name, and as an undefined-variable warning otherwise; a name its own template does define, out of reach, is always a warning. With undefined variables hidden by configuration no variable is reported at all, whatever the files contain, while missing templates still are.",
     ["programs", "configurations"], "all sets of files in a workspace, all kinds of definitions in them, both settings of hide_undefined",
     "No test has more than one file or sets hide_undefined.",
     [Q + "lsp_helper.rs", L, S + "config.rs"],
     [("scan of the other files", Q + "lsp_helper.rs search_errors"), ("ignore_globals", S + "config.rs walkdir")],
     [("variables", "definitions of all files", L)], ["publishDiagnostics"])
prop("P04", "Document symbols list every definition once, and nothing else",
     "The symbols of a template are exactly its definitions: for keys and values, set, with and imported variables, macros, parameters and blocks, each with its name, its kind and the range of the name where it is defined. Uses of variables, values, defaults and attributes never show up.",
     ["programs"], "all templates without syntax errors", "Tests count definitions in a few templates and don't look at symbols, kinds or ranges.",
     [L, Q + "search/definition.rs", Q + "search/mod.rs"],
     [("definitions query", Q + "search/definition.rs"), ("symbols", L + " document_symbols")], [], ["documentSymbol"])
prop("P05", "Goto definition leads to the closest definition in reach",
     "Asked anywhere on a variable, from its first to past its last character, goto definition answers the range of the latest definition of that name that precedes it and whose scope includes it, a definition being its own target. If the template has none, the answer is the definitions of that name in all other files, and nothing if there are none; nor is there anything on words that aren't variables (keywords, names of arguments, raw text).",
     ["programs"], "all templates without syntax errors, every position of every variable, any other files",
     "Tests don't ask for definitions at all; shadowing and scopes decide the answer.",
     [L, Q + "search/objects.rs", Q + "search/definition.rs"],
     [("object at the cursor", Q + "search/objects.rs objects_query"), ("closest definition", L + " goto_definition")], [], ["textDocument/definition"])
prop("P06", "Hover says what kind of thing is under the cursor",
     "Hovering a variable shows the kind of the closest definition before it that reaches it (for loop key or value, set or imported, with, macro, macro parameter), the backend kind if only other files define the name, and nothing if none does. Hovering a filter or a test with documentation shows that documentation, wherever it stands in an expression, and never the documentation of something else; there is nothing on words that are neither.",
     ["programs"], "all templates without syntax errors, every position of every variable, filter and test",
     "Tests cover hover detection on a handful of positions, not what is shown.",
     [L, C, Q + "search/objects.rs", S + "filter/mod.rs", S + "template_tests/mod.rs"],
     [("object at the cursor", L + " hover"), ("kind of a variable", L + " data_type"), ("documentation", C)], [], ["textDocument/hover"])
prop("P07", "Completion of variables offers exactly the names usable at the cursor",
     "Completing at a free place in an expression (or right after part of a name) offers every name whose definition ends before the cursor and whose scope includes it, each once, plus the names the backend defines; names out of scope, names of blocks and names defined later are not offered. With part of an identifier before the cursor only the template's names starting with that part are offered, and accepting one replaces the identifier.",
     ["programs"], "all templates without syntax errors, every cursor position in an expression, both editor families",
     "Tests check which kind of completion is chosen, not the items offered.",
     [L, Q + "search/objects.rs", Q + "search/mod.rs", C],
     [("items", L + " read_variables"), ("prefix", Q + "search/mod.rs completion_start")], [], ["textDocument/completion"])
prop("P08", "Completion offers what fits the place of the cursor",
     "After a pipe the server offers all documented filters, after `is` all documented tests, in an unfinished statement at the end of the document the statement snippets, inside the string of a template reference template names, in an expression variables, and in plain text, comments or closed tags nothing. Each list is complete, free of duplicates and documented, and independent of the rest of the document.",
     ["programs", "inputs"], "all templates with the cursor in any of these places",
     "Tests check a few cursor positions of a few strings and never the lists.",
     [L, C, Q + "search/objects.rs", Q + "search/snippets_completion.rs", S + "filter/mod.rs", S + "template_tests/mod.rs"],
     [("context of the cursor", L + " completion"), ("lists", C)], [], ["textDocument/completion"])
prop("P09", "A template reference is reported exactly if its file doesn't exist",
     "A template named by extends, include (single or list), import or from, or by a backend call that loads a template, gets a \"Template not found\" warning on the range of its string if and only if no such file exists under the template directory, path separators and odd characters included (a directory of that name is no file); an empty name in a template always does. Goto definition on a reference leads to the start of that very file, and from nowhere else in a document.",
     ["programs", "inputs"], "all templates and backend files, all names (nested, dotted, spaces, non-ASCII), all contents of the template directory",
     "Tests only query import nodes; no test has files on a disk.",
     [Q + "lsp_helper.rs", Q + "search/templates.rs", Q + "search/rust_template_completion.rs", L],
     [("references", Q + "search/templates.rs"), ("existence", Q + "lsp_helper.rs search_errors"), ("goto", L + " goto_definition")], [], ["publishDiagnostics", "textDocument/definition"])
prop("P10", "Template name completion offers the templates that exist, by their names",
     "Completing in the string of a template reference, in a template or a backend file, offers exactly the templates of the workspace whose name contains what is typed, named by their path relative to the template directory; accepting one replaces the whole string by the quoted name, which then is not reported as missing. Templates are offered nowhere else in a document.",
     ["programs", "configurations"], "all contents of the template directory, all kinds of references, both editor families",
     "No test has a template directory.",
     [L, Q + "search/templates.rs"], [("items", L + " read_templates")], [], ["textDocument/completion"])
prop("P11", "Code actions fit the place, and creating a missing template fixes it",
     "On a missing template reference, and only there, the action to generate it is offered, for exactly the file that reference stands for, without overwriting anything; once the file exists and the document is analysed again, both warning and action are gone. Inside an expression (not on its delimiters, nor right before a name) the reset action is offered, elsewhere none.",
     ["programs", "histories"], "all templates and backend files with references, all positions, histories of edits and file creation",
     "Code actions have no tests; they depend on what was published last.",
     [L, C, S + "channels/diagnostics.rs"],
     [("action at the cursor", L + " code_action, process_code_actions"), ("stored missing references", S + "channels/diagnostics.rs")],
     [("code_actions", "missing references of each document", L)], ["textDocument/codeAction", "publishDiagnostics"])
prop("P12", "Rust backend files provide exactly the names they define",
     "With a Rust backend, the names inside of context! invocations and the names registered by add_global, add_filter and add_function on jinja are known to all templates (completion, hover, goto, diagnostics, symbols of the file) at their ranges, and nothing else of those files is. Templates loaded by render_jinja or get_template are checked like template references.",
     ["programs"], "all Rust sources without syntax errors that use these forms among other code",
     "Tests run the queries on one source; they don't relate it to templates, positions or other code.",
     [Q + "search/rust_identifiers.rs", Q + "search/rust_template_completion.rs", Q + "search/queries.rs", L],
     [("definitions", Q + "search/rust_identifiers.rs"), ("template calls", Q + "search/rust_template_completion.rs")], [], ["documentSymbol", "completion", "definition", "publishDiagnostics"])
prop("P13", "Python backend files provide exactly the names they define",
     "With a Python backend, keyword arguments of render and render_template calls and the keys stored in the globals and filters of jinja_env are known to all templates at their ranges, and nothing else of those files is. Templates loaded by render_jinja or get_template are checked like template references.",
     ["programs"], "all Python sources without syntax errors that use these forms among other code",
     "Tests run the queries on one source; they don't relate it to templates, positions or other code.",
     [Q + "search/rust_identifiers.rs", Q + "search/queries.rs", Q + "parsers.rs", L],
     [("definitions", Q + "search/queries.rs PYTHON_DEFINITIONS"), ("language switch", Q + "parsers.rs update_backend")], [], ["documentSymbol", "completion", "definition", "publishDiagnostics"])
prop("P14", "After start every template of the workspace is indexed and reported",
     "Once initialized, the server has published diagnostics for every template file below the template directory (html, jinja and j2, at any depth), and answers requests about each as if it had been opened, however an editor escapes its URI; names defined by any of them and by the configured backend directories are known everywhere. Files with other extensions or outside of these directories contribute nothing.",
     ["configurations", "inputs"], "all directory trees with files of all extensions, several backend directories, both backend languages",
     "No test starts the server or walks a directory.",
     [S + "config.rs", L], [("walk", S + "config.rs walkdir"), ("read", L + " read_file, read_trees")], [], ["publishDiagnostics", "documentSymbol"])
prop("P15", "Each edited document is analysed again once its edits pause",
     "After the last edit of a document, however many documents are edited in between and in whatever order, fresh diagnostics of its current text are published within a short delay, without a save. While edits keep coming faster than that delay, the document isn't analysed for every one of them, and edits of one document never postpone or cancel the analysis of another.",
     ["schedules", "histories"], "all timings and interleavings of edits, saves and opens of any number of documents",
     "Needs time, several documents and concurrent timers; there is no test of it.",
     [L, C], [("delayed save", L + " did_change"), ("cancellation of the timer before", L + " diagnostics_tasks")],
     [("diagnostics_tasks", "pending timer of each document", L)], ["publishDiagnostics"])
prop("P16", "The last published diagnostics are those of the current texts",
     "Diagnostics of a document are published in the order of the notifications that caused them, and once the server is idle the last diagnostics published for each document are those its current text deserves given what the other files defined when it was last analysed. A notification about one document never publishes diagnostics for another, and documents of other kinds get none.",
     ["histories", "schedules"], "all histories of opens, edits, saves and closes over several documents, any interleaving with the timers",
     "The order is decided by two tasks, timers and channels which tests don't run.",
     [L, C, S + "channels/diagnostics.rs"], [("single loop over messages", C), ("publishing task", S + "channels/diagnostics.rs")], [], ["publishDiagnostics"])
prop("P17", "Every message is handled, in order, and every request answered, at any load",
     "However many notifications and requests arrive, in whatever order and however slowly the client reads, the server never stops: every request gets exactly one response and every notification is processed eventually. Messages take effect in the order in which they were sent: a response is that after exactly the messages before the request. No burst of saves, configuration changes, commands or edits can make its tasks wait for each other.",
     ["schedules", "histories"], "all bursts of messages of any length and kind, all interleavings of the tasks",
     "Deadlocks of bounded channels need specific fill levels and schedules; tests have no server.",
     [C, S + "channels/diagnostics.rs", S + "backend.rs"], [("channels", S + "backend.rs _new"), ("deferred messages", C + " DidChangeConfiguration, ExecuteCommand")],
     [("main_channel", "queue of messages", S + "backend.rs")], ["all responses"])
prop("P18", "No text, position or order of requests breaks the server",
     "Whatever the text of a document (unfinished tags, stray delimiters, control and multi-byte characters), whatever the position, and for documents that are unknown or of another kind, every request gets a well-formed response and the server goes on. Requests only read: asking never changes any later answer, nor does it publish diagnostics (only where the creation of a template was offered, that document is analysed once more later on).",
     ["inputs", "histories"], "all texts, all positions in and out of bounds, all request kinds in any order, before and after initialization",
     "Tests use well-formed samples and positions inside of them.",
     [L, C, Q + "search/objects.rs", Q + "search/definition.rs", Q + "search/templates.rs", Q + "search/snippets_completion.rs", Q + "search/mod.rs"],
     [("queries at a position", L + " completion, hover, goto_definition, code_action")], [], ["all responses", "process exit"])
prop("P19", "A reset rebuilds what a fresh server would know, and keeps open texts",
     "After the reset command or a configuration change the server knows exactly what a server started now, with that configuration and the same documents open, would know: files created, changed or deleted on disk are taken over, unsaved text of open documents is kept, edits go on working, and diagnostics of every template are published again (those of templates that are gone are cleared).",
     ["histories", "configurations"], "all histories of file changes, edits, resets and configuration changes",
     "It's a comparison of two histories over disk, open documents and configuration; there is no test of it.",
     [C, L, S + "config.rs"], [("reset", C + " ExecuteCommand, DidChangeConfiguration, Initialized"), ("open documents", L + " keep_open_documents")],
     [("open_documents", "documents the client has open", L)], ["publishDiagnostics", "documentSymbol"])
prop("P20", "The configuration in force is the one the user gave",
     "Options given at initialization win; without them the first of pyproject.toml, Cargo.toml and jinja-lsp.toml in the working directory that has a valid section is used; options sent later replace it as a whole. Template directory, backend directories (all of them), backend language and hide_undefined all take effect, and directories may be relative or absolute. A missing configuration, an empty template directory, a directory that can't be read and an unsupported language are reported without ending the server, and what was known stays; something sent later that isn't a configuration changes nothing.",
     ["configurations"], "all combinations of initialization options, configuration files (missing, invalid, without section), later changes",
     "Configuration has no tests.",
     [S + "config.rs", C], [("search", S + "config.rs search_config"), ("precedence", C + " Initialize, DidChangeConfiguration")],
     [("config", "configuration in force", C)], ["publishDiagnostics", "logMessage", "documentSymbol"])
prop("P21", "The Node binding reports positions of the surrounding file",
     "Fragments added with a line and column offset are analysed on their own, and everything the binding returns about a fragment (links, variables, hover, definitions, completions) has positions shifted by exactly that offset, columns only in the first line; a definition in another fragment is never returned. Adding a fragment again replaces it, deleting a file's fragments removes these and no others. Saved hints are linked, described, offered where a name is expected and gone to until they're removed. No call ends the process, whatever the file is called and whatever position is asked for.",
     ["histories", "inputs"], "all fragments, offsets and orders of add, delete, hint and query calls",
     "The binding has no tests.",
     ["jinja-lsp-nodejs/src/lib.rs", L], [("offsets", "jinja-lsp-nodejs/src/lib.rs add_one, hover, goto_definition, complete"), ("deletion", L + " delete_documents_with_id")], [], ["NodejsLspFiles methods"])
prop("P22", "Closing a document goes back to what is on the disk",
     "When a document is closed without saving, the server knows it as its file on disk is at that moment, for itself and for all other templates, and publishes the diagnostics of that text; if there is no such file, the document and its definitions are forgotten and its diagnostics cleared. Reopening starts from the text given then.",
     ["histories"], "all histories of opens, edits, saves, file changes and closes",
     "No test opens or closes documents.",
     [L, C], [("close", L + " did_close")], [("open_documents", "documents the client has open", L)], ["publishDiagnostics", "documentSymbol"])
prop("P23", "What other files know follows their latest analysed text",
     "As soon as a document has been opened, saved, analysed after an edit, or closed, every request about any other document uses the definitions of its new text and none of its old ones: diagnostics published from then on, goto, hover and completion agree. Files that were not touched keep the definitions they have.",
     ["histories"], "all histories of edits over several templates and backend files and any order of later requests",
     "Tests have a single file at a time.",
     [L, Q + "lsp_helper.rs"], [("replacement of the definitions", L + " did_save, did_open, add_variables, delete_variables")],
     [("variables", "definitions of each file", L)], ["publishDiagnostics", "definition", "hover", "completion"])

prop("P24", "A session has a beginning and an end, and the process ends with it",
     "Before it is initialized the server refuses every request with an error and hears no notification; initialize succeeds once, whatever the options are (missing, null, of any type, incomplete), and the server then works for open documents; another initialize, unknown methods and malformed parameters are answered with an error and change nothing; after shutdown every request is refused, notifications are not heard and nothing more is published for them. When its input ends - at any time, in the middle of a message, with requests, analyses and timers pending, with or without shutdown and exit - every request that was completely sent is answered exactly once and the process ends soon, with status 0 if there was no session or it was shut down.",
     ["histories", "faults"], "all orders of requests and notifications in every phase, all initialization options, all ways and moments of the end",
     "No test starts the server; whether it ends depends on what is pending at that very moment.",
     ["jinja-lsp/src/main.rs", "jinja-lsp/src/backend.rs", C, "jinja-lsp/src/channels/diagnostics.rs"],
     [("initialization and options", C + " lsp_task Initialize"), ("log messages to a client that may be gone", C + " lsp_task Initialized"), ("the process", "jinja-lsp/src/main.rs")],
     [("config", "options in force", C)], ["responses", "error codes", "publishDiagnostics", "exit status"])

prop("P25", "What is typed with the help of the server is what was meant",
     "A client that sticks to what initialize returned gets everything the server can do: documents that are opened, changed and saved are heard of; completion is triggered at every key after which something can be offered ({% and {%- for snippets, the space after {{, | and is, the quote of a reference), commands in code actions are among those advertised, and each advertised command can be executed. While a statement is typed key by key, in an editor that closes brackets and quotes by itself or one that doesn't, at each point exactly what fits is offered, and accepting an offered item at any point (also half way, in insert or replace mode, with or without snippets filled in) gives the text that would have been typed otherwise, whose symbols, definitions and diagnostics are right. Positions are in an encoding the client knows; the server asks nothing of a client that has no capabilities.",
     ["inputs", "histories"], "all statements and surroundings, at all points of typing, in all editors",
     "Unit tests look at labels of items, never at what an editor makes of them, nor at what is advertised.",
     [C, L, "jinja-lsp-queries/src/search/snippets_completion.rs"],
     [("capabilities", C + " lsp_task Initialize"), ("edits of items", L + " read_variables"), ("snippets", "jinja-lsp-queries/src/search/snippets_completion.rs")],
     [("typed", "text of a document", L)], ["capabilities", "completion", "publishDiagnostics", "documentSymbol", "codeAction"])

assert len({p["id"] for p in P}) == len(P)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
