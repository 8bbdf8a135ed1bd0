#!/usr/bin/env python3-vt
"""development aid: dbg.py Cxx entry — symbolic execution of one entry with loop/invariant trace"""
import sys, os, time
sys.path[:0] = ['/verif/engine', '/verif/contracts']
os.chdir('/verif')
import check, ir, importlib, prover as pv, term as t
pv.DEBUG = '-d' in sys.argv
prop, ent = sys.argv[1:3]
spec = importlib.import_module(prop)
es = [e for e in spec.entries(os.environ.get("VERIF_TIER", "quick")) if e.name == ent]
import build
fns = sorted({e.fn for e in spec.entries("quick")} | set(getattr(spec, "EXTRA_FNS", [])))
ll = 'build/%s/%s.ll' % (prop, prop)
if not os.path.exists(ll) or '-b' in sys.argv: ll = build.build_ir('contracts/%s.cpp' % prop, 'build/%s/%s' % (prop, prop), fns, opaque=getattr(spec, "OPAQUE", ""), defines=getattr(spec, "DEFINES", ()))
mod = ir.Module(open(ll).read())
for f in mod.fns.values(): f.analyse()
for e in es:
    e.opts = dict(e.opts, verbose='-q' not in sys.argv)
    r = check.verify_entry(mod, e, prop, time.time() + 600)
    print(r["status"], r.get("reason"), "%.1fs" % r["wall"])
    for a, b, cs in r["invariants"]:
        print("INV", a[:80], b)
        for c in cs: print("     ", c[:200])
    for f in r["fails"]: print("FAIL", f["name"], f["status"], f["goal"][:400], f.get("model")); [print("        ", p) for p in f["path"]] if '-p' in sys.argv else 0
