#!/usr/bin/env python3
"""contracts/baseline.json: the functions, loops and callee names the contracts were written for (from /repo as it is now)"""
import json, os, re, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
exe, err = check.build_weave()
d = tempfile.mkdtemp()
# the imports the contracts rely on: names they mention
text = "".join(open(os.path.join(dp, f)).read() for dp, _, fs in os.walk(check.CONTRACTS) for f in fs if f.endswith(".vc"))
words = set(re.findall(r"\w+", text))
calls, functions, imports = set(), {}, {}
for crates in sys.argv[1:] or ["input_tree,caret,parser,serialization", "pratt"]:
    rc, o, e = check.weave(exe, crates, d + "/w.rs", d + "/w.json")
    assert rc == 0, o + e
    r = json.load(open(d + "/w.json"))
    assert not r["lost"], r["lost"]
    for f in r["functions"]:
        calls.update(f["calls"])
        functions[f["key"]] = {"loops": f["loops"], "contract": f["contract"]}
    for m, v in r["imports"].items():
        v = {n: p for n, p in v.items() if n in words}
        if v:
            imports[m] = v
json.dump({"imports": dict(sorted(imports.items())), "functions": dict(sorted(functions.items())), "calls": sorted(calls)},
          open(check.CONTRACTS + "/baseline.json", "w"), indent=0)
print(len(functions), "functions")
