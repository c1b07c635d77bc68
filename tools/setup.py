#!/usr/bin/env python3
"""builds the weaver and the harnesses into /verif/.build (the checks build them too when they are missing or stale)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
os.makedirs(check.BUILD, exist_ok=True)
for what, r in [("weave", check.build_weave()), ("core", check.build_harness("core")), ("caret", check.build_harness("caret")), ("pratt", check.build_harness("pratt")), ("parser", check.build_harness("parser"))]:
    print(what, "ok" if r[0] else "FAILED\n" + r[1])
