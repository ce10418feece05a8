#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/head.md, the oracles below, the //@job lines, known_findings.json and tools/design/tail.md."""
import os, re, sys, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import props
O = {
"C01": "Engine checks on every load, store, free and byte copy of the encoded functions (object bounds, lifetime, double free, uninitialised reads in emitted strings), a step limit per path against endless loops, and termination of the returned string.",
"C02": "As C01, for the block and heading preprocessors, with long tokens around each fixed buffer size.",
"C03": "As C01, for the passes over rendered HTML.",
"C05": "A reference scanner written in the harness from the CriticMarkup documentation, run over the same symbolic bytes; output must be byte-equal in all three modes.",
"C06": "Reference scanner for delimiters, code contexts and attribute lists (`hl.h`); byte equality.",
"C07": "Reference scanner that collects footnotes and builds the expected text and definitions; byte equality.",
"C08": "Reference scanner for the six verbatim contexts and the three markers; byte equality.",
"C09": "Reference scanner for the marker spellings; byte equality.",
"C10": "Reference extraction (names, expansions, remaining text) and reference whole-word replacement; list and byte equality.",
"C11": "Reference ID generator per format, written from the documentation, with the diacritics table; equality.",
"C12": "Reference for the tail rules, compared on text and on cmark nodes (node model in model/cmark.c).",
"C13": "Table of all names extracted from the docs/emoji reference (`emoji_ref.h`) and a reference scanner; byte equality.",
"C14": "Own edit-distance function; the result must be a name at minimal distance.",
"C15": "A reader of the produced list checks nesting, order, links and escaping; text around markers byte-equal.",
"C16": "Expected tree and markup for each callout built in the harness; the node model records what was built.",
"C17": "Token streams before and after must be equal up to whitespace, with exact equality inside pre/code, and the documented indentation.",
"C18": "The inner converter is a stand-in that marks its input; expected output composed from the documented attribute forms.",
"C19": "Reference scanners for the three syntaxes; a reader of the produced index; sortedness, grouping and links.",
"C20": "Reference CSV reader and pipe-table writer; byte equality.",
"C21": "In-memory files (both on the symbolic and native side); reference line addressing and splicing; byte equality.",
"C22": "Reference line reader and attribute parser; byte equality up to attribute order as documented.",
"C23": "Reference line classifier and row counter; byte equality.",
"C24": "Reference readers for the three formats; item lists and remaining text equal. libyaml is a stand-in tree.",
"C25": "Reference implementation of each transform, on UTF-8 characters; byte equality.",
"C26": "Reference pair splitter, lookup and merge; list equality.",
"C27": "Table key -> option (from the docs); byte comparison of the whole option struct before and after.",
"C28": "Every extern of src/apex.c is a stand-in that records its letter, arguments and input; a table (stage, option, mode) gives the expected log; each stage appends a mark so that the data flow is visible too.",
"C30": "Expected document composed in the harness; byte equality.",
"C31": "Every stage stand-in asserts that no tag byte reaches it; the output must contain the tags byte for byte.",
"C32": "Reference scanner for verbatim contexts and URL ends; byte equality.",
"C33": "Reference line tracker; byte equality of the placeholder text and of the final HTML.",
}
try:
    import design_oracles; O.update(design_oracles.O)
except ImportError: pass
jobs = {}
for h in sorted(glob.glob(V + "/harness/*.c")):
    for m in re.finditer(r'^//@job (\S+) (\S+)(.*)$', open(h).read(), re.M):
        kv = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(3)))
        for q in m.group(1).split(","): jobs.setdefault(q, []).append((os.path.basename(h), m.group(2), kv.get("quick", "40"), kv.get("bound", '""').strip('"')))
out = [open(V + "/tools/design/head.md").read(), "\n## Properties: what is encoded, oracle, bounds\n"]
for p in sorted(props.P, key=lambda p: p["id"]):
    out.append("\n### %s %s\n" % (p["id"], p["title"]))
    if p.get("na"): out.append("Not applicable: %s\n" % p["na"]); continue
    out.append("\nEncoded: %s.  \nOracle: %s\n" % ("; ".join("`%s` (%s)" % m for m in p["mech"]), O.get(p["id"], "see harness")))
    if p.get("note"): out.append("Note: %s\n" % p["note"])
    out.append("\n| job | time limit (quick) | bound: every value of |\n|---|---|---|\n")
    for f, e, q, b in jobs.get(p["id"], []): out.append("| `%s` %s | %s s | %s |\n" % (f, e, q, b.replace("|", "\\|")))
out.append("\n## Defects found and repaired\n\nEach entry is also in known_findings.json; none suppresses anything.\n\n")
kf = json.load(open(V + "/known_findings.json"))["findings"]
for f in kf:
    if f["status"] == "fixed": out.append("* %s (`%s`): %s\n" % (f["property"], f["commit"], f["what"]))
rest = [f for f in kf if f["status"] != "fixed"]
out.append("\n## Known findings (recorded, not repaired)\n\n" + ("".join("* %s: %s\n" % (f["property"], f["what"]) for f in rest) or "None.\n"))
out.append("\n" + open(V + "/tools/design/tail.md").read())
open(V + "/DESIGN.md", "w").write("".join(out))
