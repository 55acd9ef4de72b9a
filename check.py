#!/usr/bin/env python3
"""Decide one property: ./check.py ID [--tier quick|thorough]

Per property (checks.json): a list of Verus units (contracts on functions that `vx` copies out of
/repo on this run) and a list of native harnesses (the same source text, compiled and run).

  verifier accepts every obligation, harness finds nothing      -> exit 0 (proved)
  harness finds a failing input                                 -> exit 1, VIOLATION with that input
  an obligation of a function under contract fails definitely   -> exit 1, VIOLATION ... no-failing-input-found
  anchor lost / construct outside the dialect / rlimit / the
  loops under contract are not the loops in the source          -> undecided by proof; the harness (bounded)
                                                                   decides, and the evidence says so
  neither the verifier nor the harness gives an answer          -> exit 2
"""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
VX = os.path.join(HERE, "tools/vx/target/release/vx")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
DEFINITE = [
    "postcondition not satisfied", "precondition not satisfied", "assertion failed",
    "possible arithmetic underflow/overflow", "possible division by zero",
    "invariant not satisfied", "decreases not satisfied", "unreachable", "possible bit shift",
    "recommendation not met", "cannot show", "loop invariant not satisfied", "failed to prove",
]


def sh(cmd, timeout, cwd=HERE, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        f = lambda x: x.decode("utf8", "replace") if isinstance(x, bytes) else (x or "")
        return -9, f(e.stdout), f(e.stderr) + "\n[timeout]"


def ensure_vx():
    if not os.path.exists(VX):
        rc, o, e = sh(["cargo", "build", "--release", "--offline"], 600, cwd=os.path.join(HERE, "tools/vx"))
        if rc != 0:
            print("cannot build the extractor:\n" + e[-2000:])
            sys.exit(2)


def wdir(pid):
    d = os.path.join(BUILD, "work", pid)
    os.makedirs(d, exist_ok=True)
    return d


def parse_errors(stderr):
    errs = []
    for l in stderr.splitlines():
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due"):
            continue
        spans = [(s["line_start"], s["line_end"], s["is_primary"], s.get("label")) for s in d.get("spans", [])]
        for c in d.get("children", []):
            spans += [(s["line_start"], s["line_end"], False, s.get("label")) for s in c.get("spans", [])]
        errs.append({"message": d["message"], "code": d.get("code"), "spans": spans, "rendered": d.get("rendered", "")})
    return errs


def fn_at(fns, line):
    for f in fns:
        if f["gen"][0] <= line < f["gen"][1]:
            return f["key"]
    return None


def lemma_at(text, line):
    ls = text.split("\n")
    for i in range(min(line, len(ls)) - 1, -1, -1):
        m = re.match(r"\s*(?:pub )?(?:open )?(?:broadcast )?(?:proof|spec|axiom) fn (\w+)", ls[i])
        if m:
            return "lemma " + m.group(1)
    return "?"


def run_unit(pid, spec, tier):
    """One Verus unit: extraction, verification, vacuity probe."""
    name = spec["unit"]
    d = wdir(pid)
    src = os.path.join(HERE, "units", name + ".vrs")
    out, rep = os.path.join(d, name + ".rs"), os.path.join(d, name + ".json")
    R = {"unit": name, "status": "OK", "failed": [], "undecided": [], "functions": [], "verified": 0, "errors": 0,
         "solver_ms": 0, "probe": None, "generated": out}
    rc, o, e = sh([VX, "verus", src, out, rep, REPO], 60)
    try:
        j = json.load(open(rep))
    except Exception:
        R["status"] = "UNDEC"
        R["undecided"].append("extractor failed: " + (e or o)[-400:])
        return R
    R["functions"], R["items"] = j["functions"], j["items"]
    if rc != 0:
        R["status"] = "UNDEC"
        R["undecided"] += j["errors"] or [e[-300:]]
        return R
    text = open(out).read()
    R["text"] = text
    rl = spec.get("rlimit", 30) * (3 if tier == "thorough" else 1)
    base = ["verus", out, "--error-format=json", "--rlimit", str(rl), "--multiple-errors", "3", "--num-threads", "4"]

    def main_run():
        return sh(base + ["--output-json", "--time-expanded"], 600, cwd=d)

    def probe_run():
        pout, prep = os.path.join(d, name + "_probe.rs"), os.path.join(d, name + "_probe.json")
        rc, o, e = sh([VX, "verus", src, pout, prep, REPO], 60, env=dict(ENV, VX_PROBE="1"))
        if rc != 0:
            return None, None, None
        fns = json.load(open(prep))["functions"]
        rc, o, e = sh(["verus", pout, "--error-format=json", "--rlimit", "10", "--multiple-errors", "6", "--num-threads", "4"], 600, cwd=d)
        return fns, o, e

    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(main_run), ex.submit(probe_run)
        rc, o, e = a.result()
        pf, po, pe = b.result()
    open(os.path.join(d, name + ".stderr"), "w").write(e)
    try:
        vj = json.JSONDecoder().raw_decode(o[o.index("{"):])[0]
    except Exception:
        vj = {}
    vr = vj.get("verification-results", {})
    R["verified"], R["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    smt = vj.get("times-ms", {}).get("smt", {})
    R["solver_ms"] = smt.get("total", 0)
    R["breakdown"] = [(f["function"].split("::", 1)[-1], f["success"], f["time-micros"] // 1000)
                      for m in smt.get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
    errs = parse_errors(e)
    hard = []
    for x in errs:
        if any(x["message"].startswith(m) or m in x["message"] for m in DEFINITE) and x["spans"]:
            prim = [s for s in x["spans"] if s[2]] or x["spans"]
            who = None
            for s in prim + x["spans"]:
                who = fn_at(R["functions"], s[0])
                if who:
                    break
            who = who or lemma_at(text, prim[0][0])
            R["failed"].append({"function": who, "obligation": x["message"], "text": x["rendered"][:1500]})
        else:
            hard.append(x["message"][:300] + " | " + x["rendered"][:300].replace("\n", " "))
    if rc == -9:
        hard.append("verifier timed out")
    if not vr and not hard:
        hard.append("verifier gave no result: " + e[-300:])
    if hard or vr.get("encountered-vir-error"):
        R["status"] = "UNDEC"
        R["undecided"] += hard or ["verifier rejected the program"]
        if any("rlimit" in h or "Resource limit" in h for h in hard) is False:
            R["failed"] = []
        return R
    # only the functions this property depends on count
    only = spec.get("fns")
    if only is not None:
        keys = {f["key"] for f in R["functions"]}
        R["failed"] = [f for f in R["failed"] if f["function"] in only or f["function"] not in keys]
    by = {f["key"]: f for f in R["functions"]}
    und = []
    for f in R["failed"]:
        g = by.get(f["function"])
        if g and g["loops_declared"] != g["loops_found"]:
            und.append(f)
    if und:
        R["undecided"] += ["loops under contract are not the loops in the source: " + f["function"] for f in und]
        R["failed"] = [f for f in R["failed"] if f not in und]
    if R["failed"]:
        R["status"] = "FAIL"
    elif R["undecided"]:
        R["status"] = "UNDEC"
    elif R["verified"] == 0:
        R["status"] = "UNDEC"
        R["undecided"].append("no obligations generated")
    # vacuity
    if R["status"] == "OK" and pf is not None:
        pe_ = parse_errors(pe)
        hit = set()
        for x in pe_:
            for s in x["spans"]:
                if s[2]:
                    hit.add(fn_at(pf, s[0]))
        want = [f["key"] for f in pf if f["probe"]]
        missing = [k for k in want if k not in hit]
        R["probe"] = {"probed": len(want), "must_fail_failed": len(want) - len(missing)}
        if missing:
            R["status"] = "UNDEC"
            R["undecided"].append("vacuity probe: assert(false) accepted at the end of " + ", ".join(missing))
    return R


def harness_crate(name):
    """Which crate a harness belongs to: first line `// crate: NAME` (default: the shell's modules)."""
    l = open(os.path.join(HERE, "native", name + ".rs")).readline()
    m = re.match(r"// crate: (\w+)", l)
    return m.group(1) if m else "native"


def harnesses():
    return sorted(x[:-3] for x in os.listdir(os.path.join(HERE, "native")) if x.endswith(".rs") and not x.startswith("_"))


def put(path, data):
    """Write only when the content changes, so that cargo's notion of "changed" is the content."""
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "wb").write(data)


def mirror(src, dst, edit=lambda p, b: b):
    seen = set()
    for r, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        for f in fs:
            rel = os.path.relpath(os.path.join(r, f), src)
            seen.add(rel)
            put(os.path.join(dst, rel), edit(rel, open(os.path.join(r, f), "rb").read()))
    for r, ds, fs in os.walk(dst):
        for f in fs:
            rel = os.path.relpath(os.path.join(r, f), dst)
            if rel not in seen:
                os.remove(os.path.join(r, f))


def sync_repo():
    """The repository's crates as they are now, next to the stand-ins for the crates that cannot be fetched."""
    for x in ("ogma", "libs", "ogma-shell", "ogma-ls", "bin"):
        if os.path.isdir(os.path.join(REPO, x)):
            mirror(os.path.join(REPO, x), os.path.join(BUILD, "repo", x))
    here = os.path.join(BUILD, "repo").encode()
    mirror(os.path.join(HERE, "native/deps"), os.path.join(BUILD, "deps"),
           lambda p, b: b.replace(b'"/repo/', b'"' + here + b"/") if p.endswith("Cargo.toml") else b)


def native_crate(which="native"):
    if which != "native":
        sync_repo()
    d = os.path.join(BUILD, which)
    os.makedirs(os.path.join(d, "src/bin"), exist_ok=True)
    toml = open(os.path.join(HERE, "native", "Cargo.toml.in" if which == "native" else "Cargo.%s.toml.in" % which)).read()
    toml = toml.replace("@DEPS@", os.path.join(BUILD, "deps"))
    for b in harnesses():
        if harness_crate(b) != which:
            continue
        toml += '\n[[bin]]\nname = "%s"\npath = "src/bin/%s.rs"\n' % (b, b)
        p = os.path.join(d, "src/bin", b + ".rs")
        if not os.path.exists(p):
            open(p, "w").write("fn main() {}\n")
    tp = os.path.join(d, "Cargo.toml")
    if not os.path.exists(tp) or open(tp).read() != toml:
        open(tp, "w").write(toml)
    lock = os.path.join(HERE, "native", "Cargo.lock" if which == "native" else "Cargo.%s.lock" % which)
    lp = os.path.join(d, "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(lp):
        open(lp, "w").write(open(lock).read())
    return d


def run_native(pid, spec, tier, seed):
    name = spec["native"]
    d = wdir(pid)
    R = {"native": name, "status": "OK", "cases": 0, "nontrivial": 0, "samples": [], "failures": [], "bound": "", "why": ""}
    which = harness_crate(name)
    crate = os.path.join(BUILD, which)
    out = os.path.join(d, "native_" + name + ".rs")
    rep = os.path.join(d, "native_" + name + ".json")
    rc, o, e = sh([VX, "native", os.path.join(HERE, "native", name + ".rs"), out, rep, REPO], 60)
    if rc != 0:
        R["status"], R["why"] = "UNUSABLE", e.strip()[-600:]
        return R
    dst = os.path.join(crate, "src/bin", name + ".rs")
    new = open(out).read()
    if not os.path.exists(dst) or open(dst).read() != new:
        open(dst, "w").write(new)
    rc, o, e = sh(["cargo", "build", "--offline", "--bin", name], 800, cwd=crate,
                  env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "target" if which == "native" else "target_" + which), REPO_DIR=REPO))
    if rc != 0:
        R["status"] = "UNUSABLE"
        R["why"] = "does not compile: " + "\n".join(l for l in e.splitlines() if l.startswith("error"))[:800]
        R["log"] = e[-3000:]
        return R
    exe = os.path.join(BUILD, "target" if which == "native" else "target_" + which, "debug", name)
    scratch = os.path.join(d, "scratch_" + name)
    os.makedirs(scratch, exist_ok=True)
    rc, o, e = sh([exe, pid, tier, str(seed), scratch], 700 if tier == "quick" else 3000, cwd=scratch)
    for l in o.splitlines():
        if l.startswith("CASES "):
            R["cases"] += int(l.split()[1])
        elif l.startswith("NONTRIVIAL "):
            R["nontrivial"] += int(l.split()[1])
        elif l.startswith("SAMPLE "):
            R["samples"].append(l[7:][:300])
        elif l.startswith("BOUND "):
            R["bound"] = (R["bound"] + "; " + l[6:]).strip("; ")
        elif l.startswith("FAIL "):
            R["failures"].append(l[5:][:2000])
    if R["failures"]:
        R["status"] = "FAIL"
    elif rc != 0 or "DONE" not in o.splitlines():
        R["status"] = "UNUSABLE"
        R["why"] = "harness ended with %s: %s" % (rc, (e or o)[-400:])
    return R


def known(pid):
    p = os.path.join(HERE, "known-findings.txt")
    k = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                k.append((m.group(2), m.group(3).strip()))
    return k


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    cfg = json.load(open(os.path.join(HERE, "checks.json")))[pid]
    ensure_vx()
    for w in sorted({harness_crate(n["native"]) for n in cfg.get("natives", [])}):
        native_crate(w)
    with cf.ThreadPoolExecutor(8) as ex:
        us = [ex.submit(run_unit, pid, u, tier) for u in cfg.get("units", [])]
        ns = [ex.submit(run_native, pid, n, tier, seed) for n in cfg.get("natives", [])]
        U = [x.result() for x in us]
        N = [x.result() for x in ns]

    findings = known(pid)
    lines = []
    nat_fail = []
    for n in N:
        for f in n["failures"]:
            m = re.match(r"\[(\S+)\] ", f)
            hit = [k for k in findings if m and k[0] == m.group(1)]
            if hit:
                s = "KNOWN-FINDING: property=%s %s" % (pid, hit[0][1])
                if s not in lines:
                    lines.append(s)
            else:
                nat_fail.append((n["native"], f))
        if n["failures"] and not any(x[0] == n["native"] for x in nat_fail):
            n["status"] = "OK"
    ver_fail = [(u["unit"], f) for u in U for f in u["failed"]]
    proved = bool(U) and all(u["status"] == "OK" for u in U)
    undec = [w for u in U for w in u["undecided"]]
    nat_ok = [n for n in N if n["status"] == "OK"]
    nat_bad = [n for n in N if n["status"] == "UNUSABLE"]

    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, pid + ".txt")
    if os.path.exists(replay):
        os.remove(replay)
    rc = 0
    verdict = ""
    if nat_fail:
        with open(replay, "w") as f:
            f.write("property %s is broken on the code in %s\n" % (pid, REPO))
            for n, x in nat_fail[:20]:
                f.write("\nfailing input (harness %s, seed %d, tier %s):\n%s\n" % (n, seed, tier, x))
            for u, x in ver_fail:
                f.write("\nfailed obligation: unit %s, %s: %s\n%s\n" % (u, x["function"], x["obligation"], x["text"]))
            f.write("\nrerun: VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s\n" % (seed, tier, pid))
        for n, x in nat_fail[:3]:
            print("failing input: " + x[:600])
        for u, x in ver_fail[:3]:
            print("failed obligation: %s: %s" % (x["function"], x["obligation"]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, replay))
        rc, verdict = 1, "violated"
    elif ver_fail:
        with open(replay, "w") as f:
            f.write("property %s: obligations that are accepted on the unchanged tree fail on the code in %s\n" % (pid, REPO))
            for u, x in ver_fail:
                f.write("\nfailed obligation: unit %s, %s: %s\n%s\n" % (u, x["function"], x["obligation"], x["text"]))
            f.write("\nno failing input found by the harness (%s)\n" % ", ".join("%s: %d cases" % (n["native"], n["cases"]) for n in N))
        for u, x in ver_fail[:3]:
            print("failed obligation: %s: %s" % (x["function"], x["obligation"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        rc, verdict = 1, "obligation failed"
    elif proved:
        verdict = "proved"
    elif nat_ok and not nat_bad:
        verdict = "bounded only"
        print("proof undecided (%s); bounded check of the same functions decides" % "; ".join(undec)[:600])
    elif cfg.get("units") or cfg.get("natives"):
        print("no answer: proof undecided (%s); harness unusable (%s)" % ("; ".join(undec)[:800], "; ".join(n["why"] for n in nat_bad)[:1500]))
        rc, verdict = 2, "no answer"

    # evidence
    asm = []
    trusted = []
    for u in U:
        t = u.get("text", "")
        for m in re.finditer(r"// assume: (.*)", t):
            asm.append(u["unit"] + ": " + m.group(1))
        for m in re.finditer(r"external_body|assume_specification|\badmit\(|\bassume\(|axiom fn|external_type_specification|uninterp spec fn", t):
            a = t[m.start():m.start() + 160].split("\n")
            s = " ".join(a[:2])[:110]
            trusted.append(u["unit"] + ": " + s)
    asm += cfg.get("assumptions", [])
    fns = sorted({u["unit"] + "/" + f["key"] for u in U for f in u["functions"]})
    wall = time.time() - t0
    cov = {
        "obligations": sum(u["verified"] + u["errors"] for u in U),
        "discharged": sum(u["verified"] for u in U),
        "checker_cmd": "vx verus units/<unit>.vrs <generated>.rs && verus <generated>.rs (Verus 0.2026.09.13, z3 back end)",
        "trusted_base": (sorted(set(trusted)) or ["none beyond the verifier and the extraction"])[:250],
        "verdict": verdict,
        "decided_by": "verifier" if proved or ver_fail else "bounded harness (NOT proved)",
        "functions_under_contract": fns[:80],
        "extraction": [{"function": f["key"], "file": f["file"], "lines": f["src"], "inlined": f["inlined"], "rewrites": f["rules"]}
                       for u in U for f in u["functions"]][:60],
        "solver_ms": sum(u["solver_ms"] for u in U),
        "vacuity_probe": [dict(unit=u["unit"], **u["probe"]) for u in U if u["probe"]],
        "undecided": undec[:10],
        "evaluations": sum(n["cases"] for n in N),
        "distinct_nontrivial": sum(n["nontrivial"] for n in N),
        "rule": "; ".join("%s: %s" % (n["native"], n["bound"]) for n in N)[:3000],
        "samples": [s for n in N for s in n["samples"]][:12],
        "bounded_parts": cfg.get("bounded", []),
    }
    level = cfg["level"]
    if verdict == "bounded only":
        level = "exploration"
    if level == "other":
        cov["explanation"] = cfg.get("explanation", "")
    if not cov["samples"]:
        cov["samples"] = ["(none)"]
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": asm, "wall_s": round(wall, 2), "violations": len(nat_fail) + len(ver_fail) if rc == 1 else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        cov["extraction"] = cov["extraction"][:10]
        s = json.dumps(ev)
        while len(s) > 60000 and cov["trusted_base"]:
            cov["trusted_base"] = cov["trusted_base"][:-10]
            s = json.dumps(ev)
    open(os.path.join(HERE, "evidence", pid + ".json"), "w").write(s)
    for u in U:
        print("unit %-14s %-5s functions=%d obligations=%d discharged=%d solver=%dms" % (
            u["unit"], u["status"], len(u["functions"]), u["verified"] + u["errors"], u["verified"], u["solver_ms"]))
    for n in N:
        print("harness %-11s %-8s cases=%d nontrivial=%d" % (n["native"], n["status"], n["cases"], n["nontrivial"]))
    print("%s: %s in %.1fs" % (pid, verdict, wall))
    for l in lines:
        print(l)
    sys.exit(rc)


if __name__ == "__main__":
    main()
