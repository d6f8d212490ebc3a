"""development aid: run every case, summarise all violations (python -m mc.dev C02 [tier] [space])"""
import os, importlib, sys, json, multiprocessing as mp, tempfile, re, time, collections
from . import core

def one(a):
    m, base, ch = a
    mod = importlib.import_module(m)
    return [(i, s, c, core.run_case(mod, c, base)) for i, s, c in ch]

def main():
    m = f"mc.checks.{sys.argv[1].lower()}"
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    only = sys.argv[3] if len(sys.argv) > 3 else None
    mod = importlib.import_module(m)
    core.import_target()
    if hasattr(mod, "prepare"): mod.prepare(tier)
    base = tempfile.mkdtemp()
    def gen():
        i = 0
        for name, cs in mod.spaces(tier):
            if only and only not in name: continue
            for c in cs:
                yield i, name, c
                i += 1
    t0 = time.time()
    cnt = collections.Counter(); bad = collections.OrderedDict(); tot = collections.Counter(); outs=set(); triv=0
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for r in p.imap(one, ((m, base, ch) for ch in core.chunks(gen(), getattr(mod, "CHUNK", 40)))):
            for i, s, c, x in r:
                tot[s] += 1
                if x[0] != "ok":
                    k = (s, x[0], re.sub(r"\d+", "#", x[1] if x[0]=="bad" else x[1][-300:])[:150])
                    cnt[k] += 1
                    bad.setdefault(k, (c, x[1]))
                    if os.environ.get("SIGS") and x[0] == "bad": print("SIG", core.sig(s, c, x[1]), json.dumps(c), x[1])
                else:
                    outs.add(x[1].outcome); triv += bool(x[1].trivial)
    for k, n in cnt.most_common(25):
        print(n, k[0], k[1], bad[k][1][:300] if k[1]=="bad" else bad[k][1][-1500:], "\n    ", json.dumps(bad[k][0])[:600])
    print(dict(tot), sum(tot.values()), "outcomes", len(outs), "trivial", triv, f"{time.time()-t0:.0f}s")
main()
