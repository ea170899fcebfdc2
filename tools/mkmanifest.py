"""Writes /verif/MANIFEST.json from properties.jsonl and the table of checks."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TECH = {
 "P01": "TLA+ (Sync.tla on Template.tla): TLC generates edit histories with the text and answers they lead to, replayed on the real server",
 "P02": "TLA+ (Template.tla, TemplateGen.tla): TLC checks the scope model and generates templates with their diagnostics, replayed on the real server",
 "P03": "TLA+ (Template.tla, Files.tla): TLC generates templates next to other files with the classification of every use, replayed on the real server",
 "P04": "TLA+ (Template.tla): TLC generates templates with their definitions, compared with the real server's symbols",
 "P05": "TLA+ (Template.tla, Files.tla): TLC generates templates with the target of every variable, asked at every position of the real server",
 "P06": "TLA+ (Template.tla, Docs.tla): TLC generates templates with the hover of every name, asked at every position of the real server",
 "P07": "TLA+ (Template.tla): TLC generates templates with the names visible at every place, compared with the real server's completion",
 "P08": "TLA+ (TemplateGen.tla, Docs.tla): TLC generates templates with marked places and what has to be offered there, asked of the real server",
 "P09": "TLA+ (Refs.tla): TLC generates template directories and references with what is missing, replayed on the real server",
 "P10": "TLA+ (Refs.tla): TLC generates template directories and what completion has to offer, replayed on the real server",
 "P11": "TLA+ (Refs.tla, Actions.tla): TLC generates histories of edits and file creation with the actions offered, replayed on the real server",
 "P12": "TLA+ (Backend.tla): TLC generates Rust sources with the names they give to templates, replayed on the real server",
 "P13": "TLA+ (Backend.tla): TLC generates Python sources with the names they give to templates, replayed on the real server",
 "P14": "TLA+ (Workspace.tla): TLC generates directory trees with the index they lead to, compared with the real server",
 "P15": "TLA+ (Debounce.tla): TLC model checks the timers; traces recorded from the real server are checked against the specification by TLC",
 "P16": "TLA+ (Workspace.tla): TLC model checks histories of notifications and generates behaviours replayed on the real server",
 "P17": "TLA+ (Queues.tla): TLC checks absence of deadlock, liveness and the order of messages across tasks and channels; bursts (Burst.tla) and ordered edits (Typing.tla) are replayed on the real server",
 "P18": "TLA+ (Robust.tla): TLC generates texts and orders of requests; the real server has to answer all and stay unchanged",
 "P19": "TLA+ (Workspace.tla): TLC generates histories with resets; the real server has to agree with the specification and with a fresh server",
 "P20": "TLA+ (Config.tla): TLC enumerates configurations with the one in force, replayed on the real server",
 "P21": "TLA+ (Node.tla): TLC generates histories of calls with their results, replayed on the real addon",
 "P22": "TLA+ (Workspace.tla): TLC generates histories with closes, replayed on the real server",
 "P23": "TLA+ (Workspace.tla): TLC generates histories over several files with what each knows of the others, replayed on the real server",
 "P25": "TLA+ (Editor.tla): TLC generates statements typed key by key in editors that close brackets and accept completions, checks they come to the text that was meant; replayed by a client that uses what is advertised",
 "P24": "TLA+ (Life.tla): TLC model checks the phases of a session and generates lives with every response and their end, lived by the real server",
}
LEVEL_NOTE = "the specification is checked by TLC and bound to the code by replaying its behaviours; documents and histories are sampled beyond small exhaustive bounds"


def main():
    import sys
    sys.path.insert(0, os.path.join(ROOT, "lib"))
    claimed = [x for x in open(os.path.join(HERE, "claimed.txt")).read().split()]
    props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 setup.py",
         "checks": [], "not_applicable": []}
    for p in props:
        if p in claimed:
            m["checks"].append({
                "property": p, "quick_cmd": "python3 check.py %s quick" % p,
                "thorough_cmd": "python3 check.py %s thorough" % p, "technique": TECH[p],
                "level": "model_checking", "level_note": LEVEL_NOTE, "evidence_file": "evidence/%s.json" % p})
        else:
            m["not_applicable"].append({"property": p, "reason": "no check yet, see DESIGN.md"})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
