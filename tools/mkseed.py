#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.py (a definition: PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS,
STUBS=bool, DEMO=str of C++), and tests the demo on scratch copies: exit 0 unpatched, nonzero patched."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: property holds; nonzero: broken (or the program does not build)
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -ftemplate-depth=2000 -ffp-contract=off -DNDEBUG -I"$D/stubs" -I"$D/stubs/gen" -I"$PWD/lib/common/include" -I"$PWD/lib/units/include" -I"$PWD/lib/core/include" -I"$PWD/lib/variable/include" -I"$PWD/lib/dataset/include" -I"$PWD/lib" -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" %s || exit 3
timeout 200 "$T/demo"
'''
ids = sys.argv[1:] or [f[:-3] for f in sorted(os.listdir(V + "/tools/seeds")) if f.endswith(".py")]
for i in ids:
    d = {"NEEDS": "", "STUBS": True, "LIBS": "-pthread -Wl,--unresolved-symbols=ignore-all", "SOURCES": ""}
    exec(open("%s/tools/seeds/%s.py" % (V, i)).read(), d)
    out = V + "/seeded/" + i
    os.makedirs(out, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call("git -C /repo archive HEAD lib | tar x -C %s" % scratch, shell=True)
        subprocess.check_call("cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x" % scratch, shell=True)
        open(out + "/demo.cpp", "w").write("".join('#include "%s.cpp"\n' % x for x in d["SOURCES"].split()) + d["DEMO"])
        open(out + "/demo.sh", "w").write(DEMO % d["LIBS"])
        os.chmod(out + "/demo.sh", 0o755)
        if d["STUBS"]: shutil.copytree(V + "/stubs", out + "/stubs", dirs_exist_ok=True)
        r0 = subprocess.run([out + "/demo.sh"], cwd=scratch, capture_output=True, text=True)
        for f, a, b in d["EDITS"]:
            s = open(scratch + "/" + f).read()
            assert s.count(a) == 1, (i, f, s.count(a), a)
            open(scratch + "/" + f, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "-C", scratch, "diff"], capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        r1 = subprocess.run([out + "/demo.sh"], cwd=scratch, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode not in (0, 3)
        print(i, "OK" if ok else "BAD", r0.returncode, r1.returncode, "" if ok else (r0.stdout + r0.stderr)[-1500:] + "\n--\n" + (r1.stdout + r1.stderr)[-1500:], flush=True)
    finally:
        shutil.rmtree(scratch)
