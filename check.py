#!/usr/bin/env python3
"""check.py Cxx : decide one property of /repo's current tree.

1. extract the functions under contract from /repo/src (mechanically, every run) and
   have Verus discharge every obligation of the units the property depends on;
2. probe those contracts for contradictions (claims of false that must be refused);
3. run the bounded search for failing inputs against the real crate.

exit 0: held; exit 1 + VIOLATION line: broken. See DESIGN.md.
"""
import copy, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
RLIMIT = "60"
T0 = time.time()

# error messages of obligations the solver refuted or could not prove; everything else
# that Verus prints as an error (syntax, types, unsupported constructs) is a tool limit
DEFINITE = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
    "assertion not satisfied", "loop invariant not", "possible arithmetic underflow/overflow", "possible division by zero",
    "decreases not satisfied", "loop ensures not satisfied", "loop must have a decreases", "recommendation not met",
    "possible bit shift", "assert_by", "unable to prove", "might not be allowed", "possible failure of",
    "constructed value may fail to meet its declared type invariant", "index out of bounds", "requires not satisfied",
    "unreachable", "precondition not met", "possible overflow",
]


def run(cmd, timeout, **kw):
    """Run to completion or kill the whole process group. (rc, stdout, stderr); rc None on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def cargo_build(crate, binname):
    """Build a crate of /verif; path of the binary or None and the error text."""
    tgt = os.path.join(BUILD, crate)
    os.makedirs(tgt, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    with open(os.path.join(BUILD, crate + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        rc, o, e = run(["cargo", "build", "--release", "--offline", "--quiet"], 400, cwd=os.path.join(VERIF, crate), env=env)
        exe = os.path.join(tgt, "release", binname)
        if rc == 0 and os.path.exists(exe):
            # a private copy: another check may rebuild meanwhile
            mine = os.path.join(SCRATCH, binname)
            shutil.copy2(exe, mine)
            return mine, ""
        return None, (o + e)[-4000:]


def program_build():
    """Build the program of the repository itself (outside it); its path or None and the error text."""
    tgt = os.path.join(BUILD, "program")
    os.makedirs(tgt, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    with open(os.path.join(BUILD, "program.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        rc, o, e = run(["cargo", "build", "--release", "--offline", "--locked", "--quiet", "--bin", "tiny-spice-rs"], 400, cwd=os.path.dirname(SRC), env=env)
        exe = os.path.join(tgt, "release", "tiny-spice-rs")
        if rc == 0 and os.path.exists(exe):
            mine = os.path.join(SCRATCH, "tiny-spice-rs")
            shutil.copy2(exe, mine)
            return mine, ""
        return None, (o + e)[-4000:]


# ---------------------------------------------------------------------------- proofs

def fn_ranges(text):
    out, cur = [], None
    for i, l in enumerate(text.split("\n"), 1):
        if l.startswith("//@@ fn "):
            cur = (l[8:].strip(), i)
        elif l.startswith("//@@ end") and cur:
            out.append((cur[0], cur[1], i))
            cur = None
    return out


def verus(path, smt_seed=None):
    rc, o, e = run(["verus", path] + (["--smt-option", "smt.random_seed=%d" % smt_seed] if smt_seed else []) + [ "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json",
                    "--multiple-errors", "3", "--rlimit", RLIMIT], 500)
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        res = json.loads(o[o.index("{"):])
    except ValueError:
        res = None
    return rc, res, diags, e


def unit_check(extract, unit):
    """status: proved | failed | undecided, with details."""
    r = {"unit": unit, "status": "undecided", "why": "", "fns": [], "failed": {}, "notes": [], "proved_fns": [], "smt_ms": 0,
         "obligations": 0, "trusted": [], "assumed": [], "changed": [], "hints": [], "partial": []}
    gen = os.path.join(SCRATCH, unit + ".rs")
    rc, o, e = run([extract, SRC, os.path.join(VERIF, "verus"), unit, gen], 60)
    for l in o.split("\n"):
        if l.startswith("FN "):
            w = l.split()
            (r["assumed"] if w[-1] == "assumed" else r["fns"]).append(w[1])
            if w[3] == "changed":
                r["changed"].append(w[1])
            r["notes"].append(l)
        elif l.startswith("HINT "):
            r["hints"].append(l.split()[1])
        elif l.startswith("PARTIAL"):
            r["partial"].append(l[8:])
        elif l.startswith(("DROPPED", "INLINED")):
            r["notes"].append(l)
        elif l.startswith("LOST"):
            r["why"] += l + "; "
    if rc != 0:
        r["why"] = "extraction: " + (r["why"] or "failed: " + e[-500:])
        return r
    text = open(gen).read()
    r["trusted"] = trusted(text)
    r["text"] = text
    t0 = time.time()
    first = judge(copy.deepcopy(r), gen, text, None)
    if first["status"] != "failed":
        return first
    # an obligation that holds can still be missed by the solver: it must fail for other random seeds too
    for smt_seed in (7, 13) if time.time() - t0 < 40 else (7,):
        again = judge(copy.deepcopy(r), gen, text, smt_seed)
        if again["status"] == "proved":
            return again
        if again["status"] == "failed":
            for k in list(first["failed"]):
                if k not in again["failed"]:
                    del first["failed"][k]
            if not first["failed"]:
                first["status"] = "undecided"
                first["why"] += "no obligation fails for every seed of the solver; "
                return first
    return first


def judge(r, gen, text, smt_seed):
    """one run of the verifier"""
    rc, res, diags, err = verus(gen, smt_seed)
    if rc is None or res is None:
        r["why"] = "the verifier gave no result: " + err[-500:]
        return r
    vr = res["verification-results"]
    ranges = fn_ranges(text)
    for m in res.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            r["obligations"] += 1
            r["smt_ms"] += f.get("time", 0)
            if f.get("success"):
                r["proved_fns"].append(f["function"].split("::", 1)[1])
    if vr.get("encountered-vir-error") or "verified" not in vr or vr.get("verified", 0) + vr.get("errors", 0) == 0:
        msgs = [d["message"] for d in diags if d.get("level") == "error"]
        r["why"] = "outside the verifier's reach: " + "; ".join(msgs)[:600]
        return r
    if vr["errors"] == 0 and vr.get("success"):
        done = [p.split("__part")[0] for p in r["proved_fns"]]
        missing = [f for f in r["fns"] if not any(p == "code::" + f.replace("::", "::") or p.endswith("::" + f.replace("::", "__")) or p.endswith("::" + f) for p in done)]
        if missing:
            r["why"] = "no obligation was generated for " + ", ".join(missing)
            return r
        r["status"] = "proved"
        return r
    limit = False
    for d in diags:
        if d.get("level") != "error" or d["message"].startswith("aborting due to"):
            continue
        msg = d["message"]
        if any(w in msg for w in ("rlimit", "Resource limit", "timeout", "canceled")):
            limit = True
            r["why"] += msg + "; "
            continue
        # the function whose body (or contract) the diagnostic is about
        hits = []
        for s in d.get("spans", []):
            for k, a, b in ranges:
                if a <= s["line_start"] <= b:
                    hits.append((0 if s.get("is_primary") else 1, k, s))
        # for a failed call precondition the primary span may be in the callee: prefer the body
        owner = None
        if hits:
            bodies = [h for h in hits if "precondition" not in msg or "failed precondition" not in (h[2].get("label") or "")]
            owner = sorted(bodies or hits, key=lambda h: h[0])[0][1]
        if owner in r["hints"]:
            # the proof's own hints no longer apply to this function: nothing is known
            limit = True
            r["why"] += "hints of %s do not apply; " % owner
            continue
        if not any(x in msg for x in DEFINITE):
            limit = True
            r["why"] += msg[:200] + "; "
            continue
        if owner is None:
            # a lemma of our own, outside every function under contract: never an alarm
            limit = True
            r["why"] += "lemma: " + msg[:200] + "; "
            continue
        # an obligation may say which property alone it stands for
        here = [text.split("\n")[s["line_start"] - 1] for s in d.get("spans", []) if s.get("is_primary") or "failed precondition" not in (s.get("label") or "")]
        only = [m.group(1) for m in (re.search(r"// only (C\d\d)", l) for l in here) if m]
        r["failed"].setdefault(owner + ("@" + only[0] if only else ""), []).append(d.get("rendered") or msg)
    r["status"] = "failed" if r["failed"] else "undecided"
    r["limit"] = limit
    return r


def trusted(text):
    """what the generated file takes for granted: names of axioms and unverified bodies"""
    out = []
    mod = ""
    pend = False
    for l in text.split("\n"):
        m = re.match(r"pub mod (\w+) \{", l)
        if m:
            mod = m.group(1)
        if re.search(r"\b(assume|admit)\s*\(", l) and not l.strip().startswith("//"):
            out.append("%s: %s" % (mod, l.strip()[:80]))
        m = re.search(r"\baxiom fn (\w+)", l)
        if m:
            out.append("%s: axiom %s" % (mod, m.group(1)))
        m = re.search(r"assume_specification.*?\[\s*(.*?)\s*\]", l)
        if m:
            out.append("%s: assumed specification of %s" % (mod, m.group(1)))
        if "external_body" in l:
            pend = True
        m = re.search(r"\b(?:fn|struct) (\w+)", l)
        if m and pend:
            if not m.group(1).startswith("fl_"):
                out.append("%s: unverified body %s" % (mod, m.group(1)))
            pend = False
    n = len(re.findall(r"fn fl_\w+\(\)", text))
    if n:
        out.append("f64s: %d literals of the source text" % n)
    return sorted(set(out))


def probes(extract, unit, ks):
    """Contradictory contracts accept a claim of false. (points refused, functions that accepted)"""
    bad, n = [], 0
    known = UNREACHABLE.get(unit, {})
    for k in ks:
        gen = os.path.join(SCRATCH, "%s_probe%d.rs" % (unit, k))
        rc, o, e = run([extract, SRC, os.path.join(VERIF, "verus"), unit, gen, "--probe", str(k)], 60)
        want = [l[6:].strip() for l in o.split("\n") if l.startswith("PROBE ")]
        if rc != 0 or not want:
            continue
        text = open(gen).read()
        rc, res, diags, err = verus(gen)
        if rc is None or res is None or res["verification-results"].get("encountered-vir-error"):
            continue
        lines = text.split("\n")
        refused = set()
        limit = any("rlimit" in d["message"] for d in diags)
        for d in diags:
            if d.get("level") == "error" and "assertion failed" in d["message"]:
                for s in d["spans"]:
                    if "// probe" in lines[s["line_start"] - 1]:
                        for key, a, b in fn_ranges(text):
                            if a <= s["line_start"] <= b:
                                refused.add(key)
        for f in want:
            if f in refused:
                n += 1
            elif not limit and k not in known.get(f, []):
                bad.append("%s (point %d)" % (f, k))
    return n, bad


# points that are unreachable in the code itself (for instance after a loop that only returns)
UNREACHABLE = {}
_u = os.path.join(VERIF, "verus", "unreachable.json")
if os.path.exists(_u):
    UNREACHABLE = json.load(open(_u))


# ---------------------------------------------------------------------------- bounded search

def search(exe, prop, seed, cases, seconds, only=None):
    d = tempfile.mkdtemp(dir=SCRATCH)
    out = os.path.join(d, "out.json")
    cmd = [exe, prop, "--seed", str(seed), "--cases", str(cases), "--seconds", str(seconds), "--out", out]
    if only is not None:
        cmd += ["--only", str(only)]
    # the code under test prints a lot; not wanted
    p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        _, err = p.communicate(timeout=seconds + 90)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    elif p.returncode and p.returncode < 0:
        # killed by its own doing (stack overflow, abort): a real crash of the code under test
        res = {"property": prop, "seed": seed, "cases": 0, "nontrivial": 0, "samples": [],
               "violation": {"case": None, "what": "the process dies with signal %d" % -p.returncode, "input": err[-1500:]}}
    shutil.rmtree(d, ignore_errors=True)
    return res


# ---------------------------------------------------------------------------- main

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    units = json.load(open(os.path.join(VERIF, "verus", "units.json")))
    mine = {u: m[prop] for u, m in units.items() if prop in m}

    extract, xerr = cargo_build("extract", "extract") if mine else (None, "")
    harness, herr = cargo_build("harness", "harness")
    if prop == "C18" and harness:
        program, herr = program_build()
        if program:
            os.environ["TS_PROGRAM"] = program
        else:
            harness = None

    results, failed, undecided = [], [], []
    probe_n, probe_bad = 0, []
    for u, fns in mine.items():
        r = unit_check(extract, u) if extract else {"unit": u, "status": "undecided", "why": "the extractor does not build: " + xerr, "fns": [],
                                                    "failed": {}, "notes": [], "proved_fns": [], "smt_ms": 0, "obligations": 0, "trusted": [], "assumed": [], "changed": [], "hints": [], "partial": []}
        results.append(r)
        if r["status"] == "failed":
            rel = {k: v for k, v in r["failed"].items()
                   if (k.split("@")[0] in fns or "*" in fns) and k.split("@")[1:] in ([], [prop])}
            if rel:
                failed.append((u, rel))
            elif r.get("limit"):
                undecided.append((u, r["why"]))
            # failures of functions that belong to other properties leave this one proved
        elif r["status"] == "undecided":
            undecided.append((u, r["why"]))
        if r["status"] == "proved":
            n, bad = probes(extract, u, range(0, 1) if tier == "quick" else range(0, 15))
            probe_n += n
            probe_bad += ["%s: %s" % (u, b) for b in bad]
    if probe_bad:
        undecided.append(("vacuity", "contradictory contract: " + ", ".join(probe_bad)))

    # bounded search: always; harder when the proof does not go through
    found, runs = None, []
    if harness:
        plan = [(seed, 30000, 60)] if tier == "quick" else [(seed + i, 400000, 120) for i in range(4)]
        if (failed or undecided) and tier == "quick":
            plan += [(seed + 100 + i, 60000, 60) for i in range(2)]
        for s, n, sec in plan:
            res = search(harness, prop, s, n, sec)
            if res is None:
                continue
            runs.append(res)
            if res["violation"]:
                v = res["violation"]
                # replay the one case on its own
                again = search(harness, prop, s, n, 60, only=v["case"]) if v["case"] is not None else res
                found = (res, bool(again and again["violation"]))
                break

    viol = None
    replay = os.path.join(EVID, prop + ".replay.txt")
    if os.path.exists(replay):
        os.remove(replay)
    if found or failed:
        with open(replay, "w") as f:
            f.write("property %s is violated by the source tree %s\n" % (prop, REPO))
            if found:
                v = found[0]["violation"]
                f.write("\nfailing input on the real code:\n%s\nwhat happens: %s\n" % (v["input"], v["what"]))
                f.write("reproduce: cargo build in /verif/harness, then in an empty directory: harness %s --seed %d --only %s --out out.json (reproduced: %s)\n"
                        % (prop, found[0]["seed"], v["case"], found[1]))
            for u, rel in failed:
                for k, msgs in rel.items():
                    f.write("\nfailed obligation: %s (unit %s)\n" % (k, u))
                    for m in msgs:
                        f.write(m + "\n")
            if not found:
                f.write("\nno failing input was found by the bounded search (%d cases)\n" % sum(r["cases"] for r in runs))
        viol = "VIOLATION property=%s replay=%s%s" % (prop, replay, "" if found else " no-failing-input-found")

    # evidence
    proved = [r for r in results if r["status"] == "proved" or r["status"] == "failed" and not any(u == r["unit"] for u, _ in failed)]
    is_proof = bool(mine) and not failed and not undecided
    samples = [s for r in runs for s in r["samples"]][:3]
    cov = {
        "evaluations": sum(r["cases"] for r in runs),
        "distinct_nontrivial": sum(r["nontrivial"] for r in runs),
        "rule": "bounded part: cases of harness %s, generated from (seed, case number); non-trivial as counted by its oracle (see DESIGN.md)" % prop,
        "samples": samples,
    }
    if mine:
        cov.update({
            "obligations": sum(r["obligations"] for r in results),
            "discharged": sum(len(r["proved_fns"]) for r in results),
            "checker_cmd": "verus (z3 back end) on the file extracted from %s for each unit: %s" % (SRC, ", ".join(mine)),
            "trusted_base": sorted(set(t for r in results for t in r["trusted"])),
            "functions_under_contract": sorted(set(f for r in results for f in r["fns"])),
            "assumed_contracts": sorted(set(f for r in results for f in r["assumed"])),
            "termination_not_proved": sorted(set("%s: %s" % (r["unit"], x) for r in results for x in r["partial"])),
            "solver_ms": sum(r["smt_ms"] for r in results),
            "vacuity_probes_refused": probe_n,
            "extraction_notes": [n for r in results for n in r["notes"] if not n.startswith("FN ")][:60],
            "undecided": ["%s: %s" % x for x in undecided],
        })
    if not is_proof:
        cov["explanation"] = ("not proved on this tree: " + "; ".join("%s: %s" % x for x in undecided) if mine else "no unit") + (" (harness does not build: %s)" % herr[-800:] if not harness else "")
    level = LEVEL.get(prop, "proof") if is_proof else "exploration" if runs else "other"
    if level != "proof" and not cov["samples"]:
        cov["samples"] = ["none"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ASSUME.get("*", []) + ASSUME.get(prop, []),
          "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0}
    tmp = os.path.join(EVID, prop + ".json.tmp%d" % os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))

    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                print(l.strip())
    for r in results:
        print("unit %s: %s%s (%d obligations, %d discharged, solver %d ms)" % (r["unit"], r["status"], " - " + r["why"][:300] if r["why"] else "", r["obligations"], len(r["proved_fns"]), r["smt_ms"]))
    if mine:
        print("vacuity probes refused: %d%s" % (probe_n, "; ACCEPTED: %s" % probe_bad if probe_bad else ""))
    for r in runs:
        print("bounded search: seed %d, %d cases, %d non-trivial, %s" % (r["seed"], r["cases"], r["nontrivial"], "VIOLATED" if r["violation"] else "none failing"))
    if not harness:
        print("the harness does not build against this tree: " + herr[-500:])
    if viol:
        print(open(replay).read()[:3000])
        print(viol)
        return 1
    return 0


LEVEL, ASSUME = {}, {}
_a = os.path.join(VERIF, "verus", "assumptions.json")
if os.path.exists(_a):
    _d = json.load(open(_a))
    LEVEL, ASSUME = _d.get("level", {}), _d.get("assume", {})

if __name__ == "__main__":
    SCRATCH = tempfile.mkdtemp(prefix="verif_")
    try:
        rc = main()
    except Exception:  # a fault of the check itself is no verdict
        import traceback
        traceback.print_exc(file=sys.stdout)
        os.makedirs(EVID, exist_ok=True)
        json.dump({"property": sys.argv[1], "tier": "quick", "seed": 1, "level": "other", "wall_s": round(time.time() - T0, 2),
                   "coverage": {"explanation": "the check itself failed; nothing was decided on this tree"}},
                  open(os.path.join(EVID, sys.argv[1] + ".json"), "w"))
        rc = 0
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(rc)
