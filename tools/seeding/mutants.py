#!/usr/bin/env python3
"""mutants.py REPO OUT [SEED]: writes small mechanical changes (one line each) of REPO's sources to OUT as JSON lines,
in random order: deleted statements, forced conditions, swapped comparisons, changed constants and strings."""
import json, os, random, re, sys
W, OUT = sys.argv[1], sys.argv[2]
rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
FILES = []
for d in ("common", "libnymea-remoteproxy", "libnymea-remoteproxyclient", "server", "monitor", "tunnelclient"):
    for r, _, fs in os.walk(os.path.join(W, d)):
        FILES += [os.path.relpath(os.path.join(r, f), W) for f in fs if f.endswith((".cpp", ".h"))]
SKIP = ("logengine.cpp", "loggingcategories")
LOG = re.compile(r"\bq(C?(Debug|Info|Warning|Critical))\b|Q_LOGGING|NYMEA_LOGGING|Q_DECLARE|setDescription|addVersion|setApplicationDesc")
out = []
for f in sorted(FILES):
    if any(s in f for s in SKIP):
        continue
    lines = open(os.path.join(W, f)).read().split("\n")
    comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            comment = True
        if comment:
            if "*/" in s:
                comment = False
            continue
        if not s or s.startswith(("//", "#", "*")) or LOG.search(l):
            continue
        def add(op, new):
            if new != l:
                out.append({"file": f, "line": n + 1, "op": op, "old": l, "new": new})
        header = f.endswith(".h")
        if not header:
            if re.match(r"^(delete |emit |[A-Za-z_][\w\->.:\[\]()*&]*(\(|\s*(=|\+=|-=|\|=)\s|\+\+|--)).*;$", s) and not re.match(r"^(return|throw)\b", s) and not re.match(r"^(static |const )?[A-Z]\w*(<.*>)?\s*[*&]*\s*\w+\s*(=|;|\()", s) and s.count("(") == s.count(")"):
                add("delete", l[:len(l) - len(l.lstrip())] + ";")
            if s in ("return;", "break;", "continue;"):
                add("delete", l[:len(l) - len(l.lstrip())] + ";")
            m = re.match(r"^(\s*(?:\} )?(?:else )?if \()(.*)(\)\s*\{?\s*)$", l)
            if m:
                add("never", m[1] + "false && (" + m[2] + ")" + m[3])
                add("always", m[1] + "true || (" + m[2] + ")" + m[3])
            for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" + 1", ""), (" - 1", "")):
                if a in l:
                    add("swap", l.replace(a, b, 1))
            if "true" in l and re.search(r"\btrue\b", l):
                add("bool", re.sub(r"\btrue\b", "false", l, count=1))
            if re.search(r"\bfalse\b", l):
                add("bool", re.sub(r"\bfalse\b", "true", l, count=1))
        for m in re.finditer(r'(?<![\w".])(\d+)(?![\w".])', l):
            if l[:m.start()].count('"') % 2 == 0:
                add("const", l[:m.start()] + str(int(m[1]) + 1) + l[m.end():])
        if not header:
            for m in re.finditer(r'"([^"\\]{2,})"', l):
                add("string", l[:m.start(1)] + m[1][:-1] + l[m.end(1):])
rnd.shuffle(out)
with open(OUT, "w") as o:
    for i, m in enumerate(out):
        m["n"] = i
        o.write(json.dumps(m) + "\n")
from collections import Counter
print(len(out), Counter(m["op"] for m in out), Counter(m["file"] for m in out))
