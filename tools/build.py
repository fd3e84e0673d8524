#!/usr/bin/env python3
"""Build what a check needs from /repo's current working tree.

usage: build.py ID...   (IDs of properties; 'all' for every driver)
The sources are copied by content to build/src (so that time stamps do not matter), built out of tree with
qmake and sanitizers in build/out, and the drivers are linked against the resulting libraries.
"""
import filecmp
import fcntl
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VRP_REPO", "/repo")
B = os.path.join(ROOT, "build")
SRC = os.path.join(B, "src")
OUT = os.path.join(B, "out")
SAN = "-O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined"
PLAIN = {"C05"}  # needs speed more than sanitizers
SKIP = {".git", "_build", "build", ".crossbuilder", "docs", "tests"}


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write("build failed: %s\n%s\n" % (cmd if isinstance(cmd, str) else " ".join(cmd), p.stdout[-6000:]))
        sys.exit(3)
    return p.stdout


def sync():
    changed, headers = 0, False
    keep = set()
    for d, dirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        dirs[:] = [x for x in dirs if not (x in SKIP and rel == ".") and not os.path.islink(os.path.join(d, x))]
        links = [x for x in os.listdir(d) if os.path.islink(os.path.join(d, x))]
        for f in set(files) | set(links):
            s = os.path.join(d, f)
            r = os.path.normpath(os.path.join(rel, f))
            t = os.path.join(SRC, r)
            keep.add(r)
            if os.path.islink(s):
                if not os.path.islink(t) or os.readlink(t) != os.readlink(s):
                    os.makedirs(os.path.dirname(t), exist_ok=True)
                    if os.path.lexists(t):
                        os.remove(t)
                    os.symlink(os.readlink(s), t)
                continue
            if not os.path.isfile(s):
                continue
            if os.path.exists(t) and filecmp.cmp(s, t, shallow=False):
                continue
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(s, t)
            changed += 1
            if not f.endswith(".cpp"):
                headers = True
    for d, dirs, files in os.walk(SRC):
        for f in files:
            r = os.path.relpath(os.path.join(d, f), SRC)
            if r not in keep:
                os.remove(os.path.join(SRC, r))
                headers = True
    return changed, headers


def main():
    ids = sys.argv[1:]
    allids = sorted(f[:-4] for f in os.listdir(os.path.join(ROOT, "src/props")) if re.match(r"C\d+\.cpp$", f))
    if ids == ["all"]:
        ids = allids
    os.makedirs(SRC, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    os.environ["LC_ALL"] = "C.UTF-8"
    for v in ("MAKEFLAGS", "QT_SELECT", "QMAKEFLAGS"):
        os.environ.pop(v, None)
    changed, headers = sync()
    if headers:
        for out in (OUT, OUT + "-plain"):
            for d, _, files in os.walk(out):
                for f in files:
                    if f.endswith(".o") or f.startswith("moc_") or f == "Makefile":
                        os.remove(os.path.join(d, f))
    plain = [i for i in ids if i in PLAIN]
    rest = [i for i in ids if i not in PLAIN]
    if rest:
        build(rest, OUT, SAN, "-fsanitize=address,undefined", "obj")
    if plain:
        build(plain, OUT + "-plain", "-O1 -fno-omit-frame-pointer", "", "obj-plain")


def build(ids, out, flags, lflags, obj):
    os.makedirs(out, exist_ok=True)
    jobs = "-j%d" % (os.cpu_count() or 4)
    makefile = os.path.join(out, "Makefile")
    if not os.path.exists(makefile):
        run(["/usr/lib/qt5/bin/qmake", "-r", os.path.join(SRC, "nymea-remoteproxy.pro"), "CONFIG+=disabletests", "QMAKE_CXX=g++",
             "-after", "QMAKE_CXXFLAGS+=-Wno-error", "QMAKE_CXXFLAGS_RELEASE=" + flags,
             "QMAKE_LFLAGS+=" + lflags, "QMAKE_LFLAGS_RELEASE="], cwd=out)
    targets = {"sub-libnymea-remoteproxy", "sub-libnymea-remoteproxyclient"}
    for i, t in (("C20", "sub-monitor"), ("C24", "sub-server"), ("C25", "sub-tunnelclient")):
        if i in ids:
            targets.add(t)
    mk = open(makefile).read()
    names = sorted(t for t in targets if re.search(r"^%s:" % re.escape(t), mk, re.M))
    run(["make", jobs] + names, cwd=out)
    run(["make", jobs, "-f", os.path.join(ROOT, "src/Makefile"), "ROOT=" + ROOT, "SAN=" + flags, "OUT=" + out, "OBJ=" + os.path.join(B, obj)]
        + [os.path.join(B, "bin", i) for i in ids], cwd=B)


main()
