#!/usr/bin/env python3
"""check.py PROPERTY      decides one property on /repo's current working tree
   check.py --setup       builds the tools

Deciding step: Verus on the units of the property, each extracted from /repo's sources on this run.
Functions the verifier cannot reach in their present form are decided by the bounded stand-in
(harness/), which also looks for a concrete failing input whenever an obligation fails.
See DESIGN.md."""
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
WORK = os.path.join(V, "work")
TARGET = os.path.join(WORK, "target")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CONF = json.load(open(os.path.join(V, "units.json")))
# how the functions looked when the contracts were written (check.py --baseline); proof hints are written for these
# shapes, so a failed obligation of a function of another shape is no verdict on the code
BASE = json.load(open(os.path.join(V, "contracts", "baseline.json")))
# functions of std that vstd specifies completely
KNOWN = set("""push pop insert remove truncate clear swap_remove append len is_empty first last get get_mut is_some is_none unwrap
 expect take replace as_ref as_mut ok_or unwrap_or is_ok is_err ok err map and_then or_else checked_add checked_sub wrapping_add
 wrapping_sub saturating_add saturating_sub min max swap Some None Ok Err Box new""".split())
T0 = time.time()

SEARCH_S = {"quick": 20, "thorough": 600}[TIER]
SEARCH_FAILED_S = {"quick": 90, "thorough": 900}[TIER]
if os.environ.get("VX_SEARCH_S"):  # self-tests only
    SEARCH_S = SEARCH_FAILED_S = int(os.environ["VX_SEARCH_S"])
VERUS_S = {"quick": 400, "thorough": 1500}[TIER]
RLIMIT = {"quick": 40, "thorough": 160}[TIER]
LIMIT_S = {"quick": 780, "thorough": 6000}[TIER]


def left():
    return LIMIT_S - (time.time() - T0)


def run(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\ntimeout"


def build_extract():
    rc, o, e = run(["cargo", "build", "--offline"], 900, {"CARGO_TARGET_DIR": TARGET}, os.path.join(V, "tools/extract"))
    if rc:
        sys.stderr.write(e)
        sys.exit("check.py: the extraction tool does not build")


def build_harness():
    """None, or why the harness could not be built against /repo"""
    rc, o, e = run(["cargo", "build", "--offline"], 900, {"CARGO_TARGET_DIR": TARGET}, os.path.join(V, "harness"))
    return None if rc == 0 else e


# --------------------------------------------------------------------------- the verifier
class Unit:
    """one extraction and verification of a set of overlays"""

    def __init__(self, name):
        c = CONF["units"][name]
        self.name, self.overlays, self.verify = name, c["overlays"], c["verify"]
        self.rs = os.path.join(WORK, "unit_%s.rs" % name)
        self.map_file = os.path.join(WORK, "unit_%s.json" % name)
        self.bodyless, self.why = set(), {}
        self.errors = []       # error blocks that are failed obligations
        self.dead = None       # why the unit is out of the verifier's reach altogether
        self.verified = self.failed = 0
        self.times, self.smt_ms, self.cmd, self.trusted = {}, 0, "", []
        self.canary = False

    def extract(self):
        rc, o, e = run([os.path.join(TARGET, "debug/extract"), REPO, self.rs, self.map_file] +
                       [os.path.join(V, "contracts", x) for x in self.overlays],
                       120, {"VX_BODYLESS": ";".join(sorted(self.bodyless)), "VX_VERIFY": ";".join(self.verify)})
        if rc:
            self.dead = "extraction: " + e.strip()[-400:]
            return False
        self.map = json.load(open(self.map_file))
        self.lines = open(self.rs).read().split("\n")
        # the canary: a false statement the verifier has to refuse with every axiom in scope
        i = max(k for k, l in enumerate(self.lines) if l.startswith("} // verus!"))
        self.canary_line = i + 1
        self.lines.insert(i, "proof fn vx_canary() { assert(false); }")
        open(self.rs, "w").write("\n".join(self.lines))
        return True

    def fn_at(self, line):
        for f in self.map["functions"]:
            if f["line"] <= line <= f["last"]:
                return f
        return None

    def in_lemma(self, line):
        """is this line of the unit the contract of a lemma?"""
        k = (line or 0) - 1
        while 0 < k < len(self.lines):
            m = re.search(r"\b(?:(proof|axiom|exec|spec)\s+)?fn\s+\w+", self.lines[k])
            if m:
                return m.group(1) == "proof"
            k -= 1
        return False

    def blocks(self, text):
        out, cur = [], None
        for l in text.split("\n"):
            if re.match(r"^(error|warning|note)(\[|:)", l):
                cur = [l]
                if l.startswith("error"):
                    out.append(cur)
            elif cur is not None:
                cur.append(l)
        return ["\n".join(b).rstrip() for b in out]

    def place(self, block):
        """(line of the error in the unit, line shown as the failed clause)"""
        prim, clause = None, None
        m = re.search(r"--> \S*?%s:(\d+):" % re.escape(os.path.basename(self.rs)), block)
        if m:
            prim = int(m.group(1))
        last, infile = None, True
        for l in block.split("\n"):
            m = re.match(r"^\s*(-->|:::) (\S+?):(\d+):\d+", l)
            if m:
                infile = m.group(2).endswith(os.path.basename(self.rs))
            m = re.match(r"^\s*(\d+)\s*\|", l)
            if m:
                last = int(m.group(1)) if infile else None
            if "failed this postcondition" in l or "failed precondition" in l:
                clause = last if infile else -1
            if infile and last and re.search(r"at (this exit|the end of the function body)", l):
                prim = last
        return prim, clause

    def verus(self):
        cmd = ["verus", self.rs, "--triggers-mode", "silent", "--num-threads", "8", "--rlimit", str(RLIMIT),
               "--multiple-errors", "5", "--output-json", "--time-expanded"]
        self.cmd = " ".join(cmd)
        rc, o, e = run(cmd, max(30, min(VERUS_S, left() - 120)), cwd=WORK)
        self.log = e
        try:
            j = json.loads(o)
        except ValueError:
            j = {}
        return rc, j, e

    def decide(self):
        for round in range(8):
            if not self.extract():
                return
            lost = [f["key"] for f in self.map["functions"] if f["lost_hints"] and not f["bodyless"] and not f["imported"] and f["overlay"] in self.verify]
            new = [k for k in lost if any("loop" in h for h in self.fn(k)["lost_hints"])]
            if new:
                for k in new:
                    self.why[k] = "hints without a place in the present text: " + ", ".join(self.fn(k)["lost_hints"])
                self.bodyless.update(new)
                continue
            rc, j, e = self.verus()
            if rc == -999:
                self.dead = "the verifier did not finish in time"
                return
            res = j.get("verification-results", {})
            blocks = self.blocks(e)
            # no obligations were generated: the text is outside the verifier's language
            if res.get("encountered-vir-error") or "verified" not in res or (res.get("verified", 0) == 0 and res.get("errors", 0) == 0):
                keys = set()
                for b in blocks:
                    p, _ = self.place(b)
                    f = self.fn_at(p) if p else None
                    if f and f["contract"] and not f["bodyless"]:
                        keys.add(f["key"])
                        self.why[f["key"]] = "not accepted by the verifier: " + b.split("\n")[0]
                if not keys:
                    self.dead = "not accepted by the verifier: " + "; ".join(b.split("\n")[0] for b in blocks[:4])
                    return
                self.bodyless |= keys
                continue
            self.verified, self.failed = res.get("verified", 0), res.get("errors", 0)
            for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
                for fb in m.get("function-breakdown", []):
                    self.times[fb["function"]] = self.times.get(fb["function"], 0) + fb.get("time", 0)
            self.smt_ms = sum(self.times.values())
            for b in blocks:
                if re.match(r"error: aborting due to|error: could not compile", b):
                    continue
                p, c = self.place(b)
                if p == self.canary_line:
                    self.canary = True
                    self.failed -= 1
                    continue
                self.errors.append((b, p, c))
            if not self.canary:
                self.dead = "the canary was accepted: the axioms are inconsistent or nothing was checked"
            return
        self.dead = "the present text could not be brought within the verifier's reach"

    def fn(self, key):
        return next(f for f in self.map["functions"] if f["key"] == key)

    def trusted_scan(self):
        """mechanical list of everything the verifier takes on trust in this unit"""
        out = []
        ext = False
        for l in self.lines:
            s = l.strip()
            if "external_body" in s:
                ext = True
                continue
            if ext and re.search(r"\b(fn|struct)\s+\w+", s):
                out.append("external_body " + re.search(r"\b(fn|struct)\s+\w+", s).group(0))
                ext = False
            if re.search(r"\baxiom fn (\w+)", s):
                out.append("axiom " + re.search(r"axiom fn (\w+)", s).group(1))
            if "assume_specification" in s:
                out.append("assume_specification " + re.sub(r".*\[\s*(.*?)\s*\].*", r"\1", s))
            if re.search(r"\b(assume|admit)\s*\(", s) and not s.startswith("//"):
                out.append("assume/admit: " + s[:80])
        keys = {f["key"].split("::")[-1] for f in self.map["functions"] if f["imported"]}
        return sorted(set(out)), keys


PANIC = re.compile(r"arithmetic|overflow|underflow|decreases|termination|index|unreachable|division")


def failures(u, prop):
    """(obligations failing for prop, functions with failures that leave prop undetermined)"""
    hard, soft = [], []
    for b, p, c in u.errors:
        f = u.fn_at(p) if p else None
        head = b.split("\n")[0]
        if f is None:
            soft.append(("unit " + u.name, b))
            continue
        if "rlimit" in b.lower() or "resource limit" in b.lower() or "timed out" in b.lower():
            soft.append((f["key"], b))
            continue
        panic = bool(PANIC.search(head))
        if "precondition not satisfied" in head:
            g = u.fn_at(c) if c and c > 0 else None
            if (g is None or not g["contract"]) and not u.in_lemma(c):
                panic = True  # a contract of std: its preconditions are std's panic conditions
        props = f["props"]
        if panic:
            props = ["C08"] if "C08" in f["props"] + f["support"] else []
        else:
            props = [x for x in props if x != "C08"] or props
            line = u.lines[c - 1] if c and c > 0 else (u.lines[p - 1] if p else "")
            m = re.search(r"/\*\s*((?:C\d\d\s*)+)\*/", line)
            if m:
                props = m.group(1).split()
        # calls of functions without a contract that could not be inlined
        base = BASE["functions"].get(f["key"], {"inlines": [], "loops": []})
        strange = [x for x in f["inlines"] if x.startswith("opaque ") and x not in base["inlines"]]
        new_words = set(f["calls"]) - set(BASE["vocabulary"]) - KNOWN
        unsure = f["lost_hints"] or strange or u.map["lost"] or f["loops"] != base["loops"] or new_words
        if prop in props and not unsure:
            hard.append((f["key"], b))
        else:
            soft.append((f["key"], b))
    return hard, soft


# --------------------------------------------------------------------------- the bounded stand-in
def literals():
    rc, o, e = run([os.path.join(TARGET, "debug/extract"), "--literals", REPO], 60)
    out = {}
    for l in o.split("\n"):
        if l:
            out[l] = out.get(l, 0) + 1
    return out


def dictionary():
    """the literals of the present sources that were not there when the contracts were written; the harness draws
    sizes and texts from them, so that behaviour hinging on a constant is reached"""
    new = sorted({l.split("\t", 1)[1] for l, n in literals().items() if n > BASE["literals"].get(l, 0)})
    p = os.path.join(WORK, "dict.txt")
    open(p, "w").write("".join(l + "\n" for l in new))
    return p


def search(prop, secs, tag=""):
    rep = os.path.join(WORK, "replay_%s%s.txt" % (prop, tag))
    if os.path.exists(rep):
        os.remove(rep)
    h = os.path.join(TARGET, "debug/vharness")
    env = {"VX_DICT": dictionary()}
    rc, o, e = run([h, "search", prop, str(SEED), str(secs), rep], secs + 120, env)
    r = {"rc": rc, "replay": rep, "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "failure": None, "ended": None}
    for l in o.split("\n"):
        m = re.match(r"(evaluations|distinct_nontrivial|hits) (\d+)$", l)
        if m:
            r[m.group(1)] = int(m.group(2))
        if l.startswith("sample "):
            r["samples"].append(l[7:])
        if l.startswith("FAILS "):
            r["failure"] = l
    if rc == 0:
        return r
    if rc == 1 and r["failure"]:
        return r
    if rc == 3 or rc == -999:
        r["ended"] = "a case does not end"
        if prop == "C08":
            r["failure"] = "FAILS property=C08 a case does not end"
        return r
    # the process died: find the case
    rc2, o2, e2 = run([h, "trace", prop, str(SEED), str(secs), rep], secs + 120, env)
    r["ended"] = "the process ended with status %d" % rc
    if rc2 not in (0, 1) and prop == "C08":
        r["failure"] = "FAILS property=C08 the process ends abnormally (status %d)" % rc2
    return r


def main():
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if sys.argv[1:] == ["--setup"]:
        build_extract()
        w = build_harness()
        if w:
            sys.stderr.write(w)
        return 0
    if sys.argv[1:] == ["--baseline"]:
        # run on the unchanged tree only
        build_extract()
        d, voc = {}, set()
        for n in CONF["units"]:
            u = Unit(n)
            u.extract()
            for f in u.map["functions"]:
                if f["contract"] and not f["imported"] and f["overlay"] in u.verify:
                    d[f["key"]] = {"inlines": sorted(f["inlines"]), "loops": f["loops"]}
                    voc |= set(f["calls"])
        d = {k: v for k, v in d.items() if v["inlines"] or v["loops"]}
        json.dump({"functions": d, "vocabulary": sorted(voc), "literals": literals()}, open(os.path.join(V, "contracts", "baseline.json"), "w"), indent=1, sort_keys=True)
        return 0
    if sys.argv[1] == "--report":
        # self-tests: what the verifier says about some units, for every property
        build_extract()
        for n in sys.argv[2:]:
            u = Unit(n)
            u.decide()
            if u.dead:
                print("%s DEAD %s" % (n, u.dead))
                continue
            for k in sorted(u.bodyless):
                print("%s BODYLESS %s %s" % (n, k, u.why.get(k, "")[:300]))
            for k in u.map["lost"]:
                print("%s LOST %s" % (n, k))
            h = {}
            for x in CONF["properties"]:
                hard, soft = failures(u, x)
                for k, b in hard:
                    h.setdefault((k, b), []).append(x)
                for k, b in soft:
                    h.setdefault((k, b), [])
            for (k, b), x in h.items():
                print("%s %s %s %s: %s" % (n, "HARD" if x else "SOFT", k, ",".join(x), b.replace("\n", " ; ")[:int(os.environ.get("W", 300))]))
            print("%s verified %d failed %d" % (n, u.verified, u.failed))
        return 0
    prop = sys.argv[1]
    conf = CONF["properties"][prop]
    build_extract()
    nobuild = build_harness()
    units = []
    for n in conf["units"]:
        u = Unit(n)
        u.decide()
        units.append(u)
    hard, soft, reach = [], [], []
    for u in units:
        if u.dead:
            reach.append("unit %s: %s" % (u.name, u.dead))
            continue
        h, s = failures(u, prop)
        hard += [(u, k, b) for k, b in h]
        rel = lambda k: k.startswith("unit ") or prop in u.fn(k)["props"] + u.fn(k)["support"]
        soft += [(u, k, b) for k, b in s if rel(k)]
        reach += ["%s: %s" % (k, u.why.get(k, "")) for k in sorted(u.bodyless) if rel(k)]
        reach += ["no function for the contract of %s" % k for k in u.map["lost"]]
    if nobuild:
        sr = None
    else:
        sr = search(prop, min(SEARCH_S, max(5, left() - 60)))
        if hard and not sr["failure"] and left() > 150:
            sr2 = search(prop, min(SEARCH_FAILED_S, left() - 100))
            sr2["evaluations"] += sr["evaluations"]
            sr2["distinct_nontrivial"] += sr["distinct_nontrivial"]
            sr = sr2
    violation, attributed = None, None
    if sr and sr["failure"]:
        violation = "VIOLATION property=%s replay=%s" % (prop, sr["replay"])
        txt = open(sr["replay"]).read() if os.path.exists(sr["replay"]) else ""
        txt += "".join("# failed obligation: %s\n# %s\n" % (k, b.replace("\n", "\n# ")) for _, k, b in hard)
        txt += "# replay: %s replay %s\n" % (os.path.join(TARGET, "debug/vharness"), sr["replay"])
        open(sr["replay"], "w").write(txt)
        print(sr["failure"])
    elif hard:
        # is the failed obligation explained by a failing input of another property of the same function?
        if sr is not None:
            others = sorted({x for u, k, _ in hard for x in u.fn(k)["props"] if x != prop and x in CONF["properties"]})
            for x in others:
                if left() < 60:
                    break
                r = search(x, 10, "_for_" + prop)
                if r["failure"] and not any("/*" in u.lines[c - 1] for u, k, b in hard for bb, p, c in u.errors if bb == b and c and c > 0):
                    attributed = "%s (%s)" % (x, r["failure"])
                    break
        if not attributed:
            rep = os.path.join(WORK, "replay_%s.txt" % prop)
            with open(rep, "w") as f:
                f.write("property %s\nno failing input found; failed obligations:\n" % prop)
                for u, k, b in hard:
                    f.write("\nobligation of %s (unit %s, source %s)\n%s\n" % (k, u.name, u.fn(k)["file"], b))
            violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rep)
            for u, k, b in hard:
                print("failed obligation: %s: %s" % (k, b.split("\n")[0]))
    # evidence
    fns, trusted = [], set()
    obligations = discharged = 0
    for u in units:
        if u.dead:
            continue
        obligations += u.verified + u.failed
        discharged += u.verified
        t, imported = u.trusted_scan()
        trusted |= {x for x in t if x.split()[-1] not in imported}
        for f in u.map["functions"]:
            if f["contract"] and not f["imported"] and f["overlay"] in u.verify and prop in f["props"] + f["support"]:
                bad = any(k == f["key"] for _, k, _ in hard + soft)
                fns.append({"function": f["key"], "file": f["file"], "role": "direct" if prop in f["props"] else "support",
                            "status": "declaration" if u.lines[f["last"] - 2].rstrip().endswith(";") else "bounded" if f["bodyless"] else "failed" if bad else "proved", "inlines": f["inlines"]})
    bounded = None
    if sr:
        bounded = {"label": "bounded: random cases against an independent oracle; never counted as proved",
                   "evaluations": sr["evaluations"], "distinct_nontrivial": sr["distinct_nontrivial"],
                   "rule": conf.get("rule", "cases are random; a case is non-trivial if the behaviour under check is reached in it"),
                   "samples": sr["samples"], "ended": sr["ended"], "failure": sr["failure"]}
    proved = not hard and not soft and not reach and bool(units)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": conf["level"], "wall_s": round(time.time() - T0, 2),
        "violations": 1 if violation else 0,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": " && ".join(u.cmd for u in units if u.cmd),
            "back_end": "Verus (Z3)", "solver_ms": sum(u.smt_ms for u in units),
            "trusted_base": sorted(trusted),
            "functions_under_contract": fns,
            "fully_proved_on_this_run": proved,
            "outside_reach_on_this_run": reach, "undetermined": sorted({k for _, k, _ in soft}),
            "attributed_to": attributed,
            "failed_obligations": [k for _, k, _ in hard],
            "bounded_stand_in": bounded,
            "extraction_rules": {u.name: u.map["rules"] for u in units if not u.dead},
            "extraction_dropped": {u.name: u.map["dropped"] for u in units if not u.dead},
        },
        "assumptions": CONF["assumptions"] + conf.get("assumptions", []),
    }
    if sr:
        ev["coverage"].update({"evaluations": sr["evaluations"], "distinct_nontrivial": sr["distinct_nontrivial"],
                               "rule": bounded["rule"], "samples": sr["samples"]})
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for l in open(os.path.join(V, "KNOWN-FINDINGS.txt")):
        if l.startswith("finding: property=%s " % prop):
            print("KNOWN-FINDING: " + l[9:].strip())
    print("%s: obligations %d, discharged %d, functions %d, %s; bounded stand-in: %s" % (
        prop, obligations, discharged, len(fns), "fully proved" if proved else "not fully proved: " + "; ".join(reach + sorted({k for _, k, _ in soft}) + [k for _, k, _ in hard]),
        "not built" if nobuild else "%d cases" % sr["evaluations"]))
    if violation:
        print(violation)
        return 1
    if sr is None and not proved:
        sys.stderr.write(nobuild or "")
        return 2
    return 0


sys.exit(main())
