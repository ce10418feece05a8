#!/usr/bin/env python3
"""Mutation testing of the checks (development aid, not a check): small changes to one
source file of a scratch copy of /repo, each run through the given properties' quick checks.
usage: mutate.py SOURCE PROP[,PROP] COUNT [SEED] [firstline-lastline]; survivors are printed as diffs."""
import sys, os, re, random, shutil, subprocess, tempfile, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src, props, count = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]); seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
rng = [int(x) for x in sys.argv[5].split("-")] if len(sys.argv) > 5 else [1, 10**9]
R = random.Random(seed); W = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
BASE = os.environ.get("APEX_REPO", "/repo")
for d in ("src", "include", "cli"): shutil.copytree(os.path.join(BASE, d), os.path.join(W, d))
lines = open(os.path.join(BASE, src)).read().split("\n")
cands = []; comment = False; depth = 0
REPL = [(r'<=', '<'), (r'>=', '>'), (r'(?<![-<>=!])<(?![<=])', '<='), (r'(?<![->=!<])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'\+ 1\b', '+ 0'), (r'\+ 2\b', '+ 1'), (r'- 1\b', '- 0'), (r'\+\+', '--'), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])(\d{2,})(?![\w.])', lambda m: str(int(m.group(1)) - 1)), (r'(?<![\w.])([2-9])(?![\w.])', lambda m: str(int(m.group(1)) - 1)), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
        (r"'\\n'", "'\\\\r'"), (r"' '", "'\\\\t'"), (r'\bif \((?!!)', 'if (!'), (r'\bstrncasecmp\b', 'strncmp'), (r'\bstrcasecmp\b', 'strcmp'), (r'\bstrchr\b', 'strrchr'), (r'\+=', '='), (r'!(?=[a-z(*])', '')]
for i, l in enumerate(lines):
    st = l.strip()
    if st.startswith("/*"): comment = True
    c = comment or st.startswith("//") or st.startswith("#") or st.startswith("*")
    if "*/" in st: comment = False
    if c or not st or not l.startswith(" ") or not (rng[0] <= i + 1 <= rng[1]): continue
    code = re.sub(r'/\*.*?\*/', '', l)
    if "goto" in code or "fprintf(stderr" in code: continue
    masked = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', l)
    masked = re.sub(r'/\*.*?\*/', lambda m: "_" * len(m.group(0)), masked)
    for rx, rep in REPL:
        for m in re.finditer(rx, masked):
            if masked[m.start()] == "_": continue
            new = l[:m.start()] + (rep(m) if callable(rep) else re.sub(r'\\\\', r'\\', rep)) + l[m.end():]
            cands.append((i, new))
    if re.match(r'\s*[a-zA-Z_*][^=]*;\s*$', masked) and not re.match(r'\s*(return|case|default|const|char|int|size_t|bool|free|struct|static|unsigned|long|void|regfree|fclose)\b', masked): cands.append((i, re.match(r'\s*', l).group(0) + ";"))
    if re.match(r'\s*[\w>.\[\]*-]+ *[+-]?=[^=].*;\s*$', masked) and not re.match(r'\s*(const|char|int|size_t|bool|struct|static|unsigned|long)\b', masked): cands.append((i, re.match(r'\s*', l).group(0) + ";"))
R.shuffle(cands); done = 0; caught = 0; seen = set(); nocompile = 0
for i, new in cands:
    if done >= count: break
    if (i, new) in seen or new == lines[i]: continue
    if sum(1 for a, _ in seen if a == i) >= 2: continue
    seen.add((i, new))
    ml = lines[:]; ml[i] = new; f = os.path.join(W, src); open(f, "w").write("\n".join(ml))
    if subprocess.run(["clang", "-fsyntax-only", "-w", "-DAPEX_HAVE_LIBYAML=1", "-D_GNU_SOURCE", "-I%s/include" % W, "-I%s/src" % W, "-I%s/src/extensions" % W, "-I%s/harness/stubinc" % V, "-I/usr/include/cmark-gfm", f], stderr=subprocess.DEVNULL).returncode: nocompile += 1; continue
    done += 1; hit = None
    for p in props:
        r = subprocess.run([sys.executable, V + "/run.py", p], env=dict(os.environ, APEX_REPO=W, SV_FIRST="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 1: hit = p; break
    if hit: caught += 1
    else: print("SURVIVED %s:%d\n  - %s\n  + %s   [%s]" % (src, i + 1, lines[i].strip(), new.strip(), r.stdout.decode(errors="replace").strip().split("\n")[-1][:160]), flush=True)
print("%s: %d mutants, %d caught, %d survived" % (src, done, caught, done - caught), flush=True)
shutil.rmtree(W)
