#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current working tree.

1. weave   - extract the functions of /repo mechanically and weave the contracts into them
2. verus   - discharge every obligation of the woven crate (all functions, all lemmas)
3. cover   - the same text with assert(false) behind every precondition: every one must fail
4. harness - run the real crate against an independent model (bounded cross-check, replay)

Verdict: see DESIGN.md "Verdicts".  Exit 0 or 1, never anything else.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, KNOWN_VACUOUS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CONTRACTS = os.path.join(VERIF, "contracts")
TOOLCHAIN = "1.85.1"
T0 = time.time()


def log(*a):
    print("#", *a, flush=True)


def env_cargo(target):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="1", RUSTC_WRAPPER="")
    return e


def run(cmd, timeout, **kw):
    """(rc, stdout, stderr); rc None on timeout or when it cannot run"""
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    except OSError as ex:
        return None, "", str(ex)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e + "\n[timeout]"


# ------------------------------------------------------------------ building our own tools
def build_weave():
    target = os.path.join(BUILD, "weave")
    rc, o, e = run(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "tools/weave/Cargo.toml")], 600,
                   env=env_cargo(target))
    exe = os.path.join(target, "release", "weave")
    if rc == 0 and os.path.exists(exe):
        return exe, None
    return None, (o + e)[-3000:]


def build_harness(which):
    target = os.path.join(BUILD, "h" + which)
    name = "harness_" + which
    rc, o, e = run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "harness", which, "Cargo.toml"), "--bin", name], 600,
                   env=env_cargo(target))
    exe = os.path.join(target, "debug", name)
    if rc == 0 and os.path.exists(exe):
        return exe, None
    return None, (o + e)[-3000:]


# ------------------------------------------------------------------ the bounded harness
def run_harness(exe, prop, seed, secs):
    rc, o, e = run([exe, prop, str(seed), str(secs)], secs * 3 + 120, env=dict(os.environ, RUST_BACKTRACE="0"))
    for line in o.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            d["rc"] = rc
            d["exe"] = os.path.basename(exe)
            return d
    return {"error": "no result (rc %s): %s" % (rc, (o + e)[-1500:]), "rc": rc}


def run_harness_many(exe, prop, seeds, secs):
    out = [None] * len(seeds)
    def one(i):
        out[i] = run_harness(exe, prop, seeds[i], secs)
    ts = [threading.Thread(target=one, args=(i,)) for i in range(len(seeds))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return out


# ------------------------------------------------------------------ the proof
HEAD = re.compile(r"^(error|warning|note)(\[[^\]]*\])?: (.*)$")


def diagnostics(stderr):
    """[(level, message, [woven lines], text)]"""
    out, cur = [], None
    for line in stderr.splitlines():
        m = HEAD.match(line)
        if m:
            cur = [m.group(1) + (m.group(2) or ""), m.group(3), [], [line]]
            out.append(cur)
            continue
        if cur is None:
            continue
        cur[3].append(line)
        m = re.match(r"^\s*(?:-->|:::) \S*woven\.rs:(\d+)", line)
        if m:
            cur[2].append(int(m.group(1)))
            continue
        m = re.match(r"^(\d+) [ |/]", line) or re.match(r"^ *(\d+) +\|", line)
        if m:
            cur[2].append(int(m.group(1)))
    return [(a, b, c, "\n".join(d)) for a, b, c, d in out]


class Text:
    """the woven text: which line belongs to which function or lemma, which lemmas a function uses"""

    def __init__(self, path):
        self.src = open(path, encoding="utf-8").read().split("\n")
        n = len(self.src)
        self.owner = [None] * (n + 2)     # exec function key by line
        self.ghost = [None] * (n + 2)     # lemma or spec function by line
        self.body = {}                    # name -> text
        stack, ghost = [], None
        for i, line in enumerate(self.src, 1):
            first = None
            for m in re.finditer(r"/\*@fn (.*?)\*/|/\*@end\*/", line):
                if m.group(1):
                    stack.append(m.group(1))
                    first = first or m.group(1)
                else:
                    self.owner[i] = stack[-1] if stack else None
                    if stack:
                        stack.pop()
            if self.owner[i] is None:
                self.owner[i] = stack[-1] if stack else first
            if self.owner[i]:
                self.body.setdefault(self.owner[i], []).append(line)
                ghost = None
                continue
            m = re.search(r"\b(?:proof|spec|const) fn (?:\(.*?\) )?(\w+)", line) or re.search(r"\bproof fn (\w+)|spec\(checked\) fn (\w+)", line)
            if m:
                ghost = [x for x in m.groups() if x][0]
            elif re.match(r"^(pub )?(struct|enum|trait|impl|mod|use|type)\b|^} // (verus|mod)", line):
                ghost = None
            self.ghost[i] = ghost
            if ghost:
                self.body.setdefault("ghost:" + ghost, []).append(line)
        self.lemmas = {k[6:] for k in self.body if k.startswith("ghost:")}

    def who(self, l):
        if 0 < l < len(self.owner):
            if self.owner[l]:
                return ("fn", self.owner[l])
            if self.ghost[l]:
                return ("ghost", self.ghost[l])
        return None

    def lemma_closure(self, keys, extra=()):
        seen, todo = set(), []
        def add(text):
            for w in set(re.findall(r"\b[a-z]\w*", text)):
                if w in self.lemmas and w not in seen:
                    seen.add(w)
                    todo.append(w)
        for k in keys:
            add("\n".join(self.body.get(k, [])))
        add(" ".join(extra))
        while todo:
            add("\n".join(self.body.get("ghost:" + todo.pop(), [])))
        return seen


def weave(exe, crates, out, report, quarantine=(), cover=False):
    cmd = [exe, "--repo", REPO, "--contracts", CONTRACTS, "--out", out, "--report", report]
    for q in quarantine:
        cmd += ["--quarantine", q]
    if cover:
        cmd.append("--cover")
    return run(cmd, 120, env=dict(os.environ, WEAVE_CRATES=crates))


def verus(path, extra=(), timeout=600):
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["verus", os.path.basename(path), "--output-json", "--time-expanded", "--triggers-mode", "silent"] + list(extra)
    t = time.time()
    rc, o, e = run(cmd, timeout, cwd=os.path.dirname(path), env=env)
    try:
        j = json.loads(o[o.index("{"):])
    except ValueError:
        j = None
    return {"rc": rc, "json": j, "err": e, "cmd": "verus woven.rs " + " ".join(cmd[2:]), "wall": time.time() - t}


def breakdown(j):
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            yield m["module"], f


def matches(pats, key):
    return any(re.fullmatch(p, key) for p in pats)


class Proof:
    """weave + verus, setting functions aside (quarantine) that cannot be brought within reach"""

    def __init__(self, exe, cfg, work):
        self.cfg, self.work, self.exe = cfg, work, exe
        self.aside = {}          # key -> why
        self.failed = {}         # key or lemma -> [obligation text]
        self.global_loss = None
        self.ok = False

    def go(self, deadline):
        cfg = self.cfg
        w, rep = os.path.join(self.work, "woven.rs"), os.path.join(self.work, "woven.json")
        for attempt in range(10):
            rc, o, e = weave(self.exe, cfg["crates"], w, rep, sorted(self.aside))
            if rc != 0:
                self.global_loss = "weave: " + (o + e)[-1500:]
                return
            self.report = json.load(open(rep))
            self.text = Text(w)
            self.fns = {f["key"]: f for f in self.report["functions"]}
            self.keys = [k for k in self.fns if matches(cfg["fns"], k)]
            new = {k: v for k, v in self.unreachable().items() if k not in self.aside}
            if new:
                self.aside.update(new)
                continue
            extra = ["--multiple-errors", "4"]
            r = verus(w, extra, max(60, min(500, deadline - time.time())))
            self.res = r
            vr = (r["json"] or {}).get("verification-results", {})
            if r["json"] is None or vr.get("encountered-vir-error") or (not vr.get("verified") and not vr.get("errors")):
                # the front end refuses something: set the functions named in the errors aside
                bad = {}
                for lvl, msg, lines, text in diagnostics(r["err"]):
                    if not lvl.startswith("error"):
                        continue
                    for l in lines[:1]:
                        who = self.text.who(l)
                        if who and who[0] == "fn" and who[1] not in self.aside:
                            bad[who[1]] = "not accepted by the verifier's front end: " + msg
                if not bad or time.time() > deadline - 60:
                    first = [t for a, b, c, t in diagnostics(r["err"]) if a.startswith("error")]
                    self.global_loss = "verifier front end: " + (first[0] if first else r["err"][-1500:])[:1500]
                    return
                self.aside.update(bad)
                continue
            self.collect(r)
            # a query that ran out of resources is undecided, not failed
            slow = {k for k, v in self.failed.items() if all("rlimit" in x["message"] or "Resource limit" in x["message"] for x in v)}
            for k in slow:
                if k in self.fns:
                    self.aside.setdefault(k, "solver ran out of resources")
                self.failed.pop(k)
                self.undecided.add(k)
            self.ok = True
            return
        self.global_loss = "too many functions had to be set aside"

    def unreachable(self):
        """functions whose text the contracts no longer fit: nothing is decided about them by proof"""
        out = {}
        for f in self.report["functions"]:
            if f["unsupported"]:
                out[f["key"]] = "unsupported construct: " + "; ".join(f["unsupported"])
        for l in self.report["lost"]:
            k = l.split(": ")[0]
            if k in self.fns:
                out[k] = "lost anchor: " + l
        return out

    def collect(self, r):
        self.undecided = set()
        self.units = []
        for mod, f in breakdown(r["json"]):
            if f["function"].startswith("woven::"):
                self.units.append((f["function"][7:], f["mode:"], f["success"], f["time-micros"], f["rlimit"]))
        for lvl, msg, lines, text in diagnostics(r["err"]):
            if not lvl.startswith("error") or not lines or msg.startswith("aborting"):
                continue
            owners = [self.text.who(l) for l in lines]
            owners = [o for o in owners if o]
            # a failed precondition names the callee's clause too: the caller is the function at fault, the one with the first span
            if not owners:
                who = "?"
            else:
                who = owners[0][1]
                if "postcondition" in msg:
                    f = [o[1] for o in owners if o[0] == "fn" and self.fns.get(o[1], {}).get("has_body")]
                    if f:
                        who = f[-1] if len(set(f)) > 1 else f[0]
            self.failed.setdefault(who, []).append({"message": msg, "text": text})


def unit_name(key):
    """`<A as B<C>>::f` -> (A, f) ; `A::f` -> (A, f)"""
    name = key.rsplit("::", 1)[-1]
    t = key[: -len(name)].rstrip(":")
    t = re.sub(r"^<", "", t)
    t = re.split(r" as ", t)[0]
    t = re.sub(r"<.*", "", t).lstrip("&")
    return t, name


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=BUILD)
    try:
        rc = decide(prop, cfg, tier, seed, thorough, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def classify(p, cfg, loss, alarms, aside):
    """what the failed obligations mean for one property: alarms, or not decided by proof"""
    keys = set(p.keys)
    lem = p.text.lemma_closure(p.keys, cfg.get("lemmas", []))
    missing = [f for f in cfg["must"] if not any(re.fullmatch(f, k) for k in p.fns)]
    for m in missing:
        loss.append("function under contract not found any more: " + m)
    for l in p.report["lost"]:
        k = l.split(": ")[0]
        if k in keys or (k not in p.fns and matches(cfg["fns"], k)):
            loss.append("lost anchor: " + l)
    for k, why in p.aside.items():
        aside[k] = why
        if k in keys:
            loss.append("%s: %s" % (k, why))
    base = json.load(open(os.path.join(CONTRACTS, "baseline.json")))
    known = set(base["functions"])
    # names whose contract the verifier knows: callees of the unchanged tree, functions with a contract, exactly specified library functions
    calls_known = set(base["calls"]) | STD_KNOWN | {k.rsplit("::", 1)[-1] for k, f in p.fns.items() if f["contract"]}
    helpers = {k.rsplit("::", 1)[-1]: k for k, f in p.fns.items() if k not in known and not f["contract"]}
    for k, obs in p.failed.items():
        if k == "?":
            loss.append("an obligation outside any function failed: " + obs[0]["message"])
            continue
        if k not in p.fns:
            if k in lem:
                loss.append("lemma %s is not accepted any more: %s" % (k, obs[0]["message"]))
            continue
        if k not in keys:
            continue
        f = p.fns[k]
        why = None
        nh = [helpers[c] for c in f["calls"] if c in helpers and helpers[c] != k]
        if nh:
            why = "calls %s, which has no contract" % ", ".join(nh)
        elif k in helpers.values():
            why = "new function without a contract"
        elif k in known and base["functions"][k]["loops"] != f["loops"]:
            why = "its loops were restructured"
        elif [c for c in f["calls"] if c not in calls_known]:
            why = "calls " + ", ".join(c for c in f["calls"] if c not in calls_known) + ", whose contract is unknown here"
        if why:
            loss.append("%s is out of the proof's reach (%s): %s" % (k, why, obs[0]["message"]))
        else:
            alarms.append((k, obs))
    for k in p.undecided:
        if k in keys or k in lem:
            loss.append("%s: the solver ran out of resources" % k)
    return keys, lem


def decide(prop, cfg, tier, seed, thorough, work):
    deadline = T0 + (840 if not thorough else 3600)
    st = {}
    secs = cfg.get("secs", 15) if not thorough else cfg.get("secs_thorough", 240)
    nseeds = 3 if not thorough else 6

    def t_harness():
        exe, err = build_harness(cfg["harness"])
        st["hexe"], st["herr"] = exe, err
        st["exes"] = [exe] if exe else []
        if exe:
            st["hres"] = run_harness_many(exe, prop, [seed + 1000003 * i for i in range(nseeds)], secs)
        for which in cfg.get("harness_also", []):
            exe, err = build_harness(which)
            if exe:
                st["exes"].append(exe)
                st["hres"] = st.get("hres", []) + run_harness_many(exe, prop, [seed], secs)
            else:
                st["herr"] = st["herr"] or err

    def t_proof():
        exe, err = build_weave()
        if not exe:
            st["perr"] = "weave does not build: " + err
            return
        st["wexe"] = exe
        p = Proof(exe, cfg, work)
        st["proof"] = p
        p.go(T0 + (500 if not thorough else 1500))

    def t_cover():
        exe, err = build_weave()
        if not exe:
            return
        d = os.path.join(work, "cover")
        os.makedirs(d)
        rc, o, e = weave(exe, cfg["crates"], os.path.join(d, "woven.rs"), os.path.join(d, "woven.json"), cover=True)
        if rc == 0:
            st["cover"] = verus(os.path.join(d, "woven.rs"), ["--multiple-errors", "1"], 400)

    def guard(f):
        def g():
            try:
                f()
            except Exception as ex:  # a failure of the machinery is never an alarm
                st.setdefault("internal", []).append("%s: %r" % (f.__name__, ex))
        return g
    if cfg.get("crates"):
        exe, err = build_weave()   # once, before the two threads that use it
        ths = [threading.Thread(target=guard(f)) for f in (t_harness, t_proof, t_cover)]
    else:
        ths = [threading.Thread(target=guard(t_harness))]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for x in st.get("internal", []):
        log("internal:", x)

    # ---------------------------------------------------------------- what the proof says
    p = st.get("proof")
    proved, loss, alarms, aside = False, [], [], {}
    cov = {}
    if not cfg.get("crates"):
        loss.append("no contracts: bounded check only")
    elif p is None or not p.ok:
        loss.append((p.global_loss if p else None) or st.get("perr") or "the proof did not run")
    else:
        keys, lem = classify(p, cfg, loss, alarms, aside)
        # vacuity
        vac = []
        c = st.get("cover")
        if c and c["json"]:
            okc = {f["function"][7:] for m, f in breakdown(c["json"]) if f["mode:"] == "exec" and f["success"] and f["function"].startswith("woven::")}
            short = {unit_name(k) for k in keys if p.fns[k]["has_body"] and k not in aside}
            for u in okc:
                if u in KNOWN_VACUOUS or u.endswith("::clone"):
                    continue
                parts = u.split("::")
                if (len(parts) > 1 and (parts[-2], parts[-1]) in short) or ("", parts[-1]) in short:
                    vac.append(u)
            ncover = sum(1 for m, f in breakdown(c["json"]) if f["mode:"] == "exec" and not f["success"])
            cov["vacuity_check"] = "%d functions: assert(false) behind the precondition is refuted; not refuted: %s" % (ncover, vac or "none")
        else:
            cov["vacuity_check"] = "did not run"
        for u in vac:
            loss.append("%s: its precondition cannot be met (vacuous)" % u)
        short = {}
        for k in keys:
            short.setdefault(unit_name(k), k)
        units = []
        for (name, mode, ok, us, rl) in p.units:
            parts = name.split("::")
            if mode == "exec":
                if (len(parts) > 1 and (parts[-2], parts[-1]) in short) or ("", parts[-1]) in short:
                    units.append((name, mode, ok, us, rl))
            elif parts[-1] in lem:
                units.append((name, mode, ok, us, rl))
        execn = sum(1 for u in units if u[1] == "exec")
        if not units or not execn:
            loss.append("no obligations were generated")
        contract = [k for k in keys if p.fns[k]["contract"] or p.fns[k]["key"].startswith("<")]
        trusted = trusted_base(p.text.src)
        cov.update({
            "obligations": len(units), "discharged": sum(1 for u in units if u[2]),
            "obligation_unit": "one verification query: all conditions (pre/postconditions, invariants, overflow, termination) of one function or lemma",
            "whole_crate": {k: p.res["json"]["verification-results"].get(k) for k in ("verified", "errors")},
            "back_end": "Z3 (bundled with Verus 0.2026.09.13)", "solver_ms": round(sum(u[3] for u in units) / 1000.0, 1),
            "functions_under_contract": sorted(contract),
            "functions_in_text_without_contract": sorted(k for k in keys if k not in contract),
            "lemmas": sorted(u[0] for u in units if u[1] != "exec"),
            "set_aside": aside,
            "checker_cmd": "tools/weave --repo /repo --contracts contracts --out woven.rs; " + p.res["cmd"],
            "proof_wall_s": round(p.res["wall"], 1),
            "trusted_base": trusted,
            "rewrites_by_the_extraction": p.report["notes"],
            "preconditions_left_to_callers_outside_the_crate": sorted(k for k in keys if p.fns[k]["has_requires"]),
            "samples": [{"function": u[0], "ms": u[3] / 1000.0, "rlimit": u[4]} for u in sorted(units, key=lambda u: -u[3])[:5]],
        })
        proved = not loss and not alarms and all(u[2] for u in units)
        if not proved and not loss and not alarms:
            loss.append("not every obligation was accepted: " + ", ".join(u[0] for u in units if not u[2]))

    # ---------------------------------------------------------------- what the harness says
    hres = [r for r in st.get("hres", []) if r]
    hbad = next((r for r in hres if r.get("failing_input") or r.get("failure")), None)
    if alarms and not hbad and st.get("exes"):
        left = deadline - time.time() - 60
        s2 = int(max(5, min(60 if not thorough else 300, left / 2)))
        log("an obligation failed; searching for a failing input (%d s)" % s2)
        more, per = [], 8 // len(st["exes"])
        found = [threading.Thread(target=lambda x=x: more.extend(run_harness_many(x, prop, [seed + 7919 * (i + 1) for i in range(per)], s2))) for x in st["exes"]]
        [t.start() for t in found]
        [t.join() for t in found]
        hres += [r for r in more if r]
        hbad = next((r for r in more if r and r.get("failing_input") or r.get("failure")), None)
    good = [r for r in hres if "evaluations" in r]
    bounded = {
        "evaluations": sum(r["evaluations"] for r in good), "distinct_nontrivial": max([r["distinct_nontrivial"] for r in good] or [0]),
        "rule": "; ".join(dict.fromkeys(r["rule"] for r in good)) or "did not run", "samples": (good[0]["samples"] if good else [])[:5],
        "label": "bounded: random and enumerated cases on the real code, never counted as proved",
    }
    if not good:
        bounded["error"] = (st.get("herr") or (hres[0].get("error") if hres else None) or "harness did not run")[-1500:]
        log("harness:", bounded["error"][-400:])

    # ---------------------------------------------------------------- verdict and evidence
    level = cfg["level"] if proved else "exploration"
    rc = 0
    lines = []
    known = known_findings(prop)
    replay = os.path.join(VERIF, "evidence", "replay", prop + ".json")
    if hbad and any(k and k in json.dumps([hbad.get("failing_input"), hbad.get("failure")], ensure_ascii=False) for k in known):
        lines += ["KNOWN-FINDING: property=%s %s" % (prop, k) for k in known]
        hbad = None
    if hbad or alarms:
        rc = 1
        doc = {"property": prop, "repo": REPO,
               "failing_input": hbad.get("failing_input") if hbad else None, "failure": hbad.get("failure") if hbad else None,
               "replay_cmd": "%s %s %s %s" % (hbad.get("exe"), prop, hbad.get("seed"), secs) if hbad else None,
               "failed_obligations": [{"function": k, "file": p.fns[k]["file"], "line": p.fns[k]["line"],
                                       "obligation": [o["message"] for o in obs], "verifier_output": [o["text"] for o in obs]} for k, obs in alarms],
               "not_decided_by_proof": loss}
        json.dump(doc, open(replay, "w"), indent=1, ensure_ascii=False)
        for k, obs in alarms:
            log("obligation failed: %s: %s" % (k, "; ".join(o["message"] for o in obs)))
        if hbad:
            log("failing input:", str(hbad.get("failing_input"))[:600])
            log("failure:", str(hbad.get("failure"))[:600])
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if hbad else " no-failing-input-found"))
    elif os.path.exists(replay):
        os.remove(replay)
    for l in loss:
        log("not decided by proof:", l[:500])
    coverage = dict(cov)
    coverage["bounded_harness"] = bounded
    if level == "exploration":
        coverage.update({k: bounded[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")})
        coverage["explanation"] = "bounded, not proved, on this run: " + "; ".join(loss or ["a failing input or obligation was found"])[:3000]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": cfg.get("assumptions", []) + ASSUME, "wall_s": round(time.time() - T0, 1), "violations": rc}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    if proved:
        log("%s: %d of %d obligations discharged (%d functions), %d harness cases, %.0f s" % (
            prop, cov["discharged"], cov["obligations"], len(cov["functions_under_contract"]), bounded["evaluations"], ev["wall_s"]))
    else:
        log("%s: bounded only, %d harness cases, %.0f s" % (prop, bounded["evaluations"], ev["wall_s"]))
    for l in lines:
        print(l, flush=True)
    return rc


STD_KNOWN = set("int_from is_some is_none is_ok is_err unwrap expect clone len push pop insert remove is_empty get get_mut min max checked_add checked_sub checked_mul "
                "saturating_sub saturating_add wrapping_add wrapping_sub abs_diff then_some truncate append split_off first last swap replace take as_ref as_mut ok err unwrap_or or xor zip flatten is_eq is_ne is_lt is_le is_gt is_ge reverse div_ceil split_first split_last contains fill swap_remove extend_from_slice clear to_vec Some None Ok Err Box new".split())

ASSUME = [
    "The extraction (tools/weave) keeps meaning: it copies every function body from /repo and applies only the rewrites listed under rewrites_by_the_extraction; proof text only adds ghost code.",
    "Verus, its bundled Z3 and vstd's specifications of the standard library are sound; the assumed contracts in trusted_base hold.",
    "Termination and absence of overflow, out-of-bounds access and reachable panics are proved for the listed functions under their preconditions; allocation failure and stack exhaustion are not modelled.",
]


def trusted_base(src):
    out = []
    pend = None
    for i, line in enumerate(src):
        s = line.strip()
        if s.startswith("//"):
            continue
        if "assume_specification" in s:
            m = re.search(r"\[(.*?)\]\s*\(", s)
            out.append("assumed contract: " + (m.group(1) if m else s[:140]))
        elif "#[verifier::external_body]" in s or "#[verifier::external]" in s or "external_type_specification" in s or "external_trait" in s:
            pend = "external type" if "type" in s else "external trait" if "trait" in s else "external"
            rest = re.sub(r"#\[verifier::[^\]]*\]", "", s).strip()
            if "fn " in rest or "struct " in rest:
                out.append("%s: %s" % (pend, rest[:140]))
                pend = None
            continue
        elif re.search(r"\b(assume|admit)\s*\(", s):
            out.append("assumption: " + s[:140])
        elif re.search(r"\baxiom fn\b|broadcast axiom", s):
            out.append("axiom: " + s[:140])
        if pend and re.search(r"\b(fn|struct|enum|trait|impl)\b", s):
            out.append("%s: %s" % (pend, re.sub(r"/\*@.*?\*/", "", s)[:140]))
            pend = None
    return sorted(set(out))


def known_findings(prop):
    """`known: property=<id> <text identifying the failing input>`; fixed entries suppress nothing"""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except OSError:
        pass
    return out


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as ex:  # never an exit code other than 0 and 1
        import traceback
        traceback.print_exc()
        print("# internal error, nothing decided:", ex)
        try:
            pr = sys.argv[1]
            json.dump({"property": pr, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
                       "coverage": {"explanation": "internal error of the check, nothing was decided: %r" % (ex,)}, "wall_s": time.time() - T0, "violations": 0},
                      open(os.path.join(VERIF, "evidence", pr + ".json"), "w"))
        except Exception:
            pass
        sys.exit(0)
