#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property on /repo's current working tree:
  1. vx extracts the functions under contract from /repo and splices the contracts;
  2. Verus must accept every obligation, and a reachability run must show that no contract is vacuous;
  3. rt executes the same contracts on the real crate: it looks for a failing input for a failed
     obligation, and audits the contracts that are assumed (std, glue outside the verifier's reach).
See DESIGN.md for what each outcome means.
"""
import json, os, re, subprocess, sys, time, threading, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from props import PROPS, UNITS  # noqa: E402


def env():
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "0"})
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUST_BACKTRACE", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e


def sh(cmd, timeout, cwd=None, extra=None):
    ev = env()
    if extra:
        ev.update(extra)
    p = subprocess.Popen(cmd, cwd=cwd, env=ev, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return 124, o, e


class Machinery(Exception):
    pass


def build_vx():
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], 300, cwd=os.path.join(VERIF, "vx"), extra={"CARGO_TARGET_DIR": os.path.join(BUILD, "vx")})
    if rc != 0:
        raise Machinery("building vx failed:\n" + e[-3000:])
    return os.path.join(BUILD, "vx", "debug", "vx")


def build_rt():
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], 600, cwd=os.path.join(VERIF, "rt"), extra={"CARGO_TARGET_DIR": os.path.join(BUILD, "rt")})
    if rc != 0:
        raise Machinery("building rt against /repo failed:\n" + "\n\n".join(x for x in e.split("\n\n") if x.startswith("error"))[-3000:])
    return os.path.join(BUILD, "rt", "debug", "rt")


ERR = re.compile(r"^error(\[[A-Z0-9]+\])?: (.*)$")
LOC = re.compile(r"^\s*--> ([^:]+):(\d+):(\d+)")
OBLIGATION = (
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
    "possible arithmetic", "possible division by zero", "decreases not satisfied", "assertion not satisfied",
    "loop invariant not", "loop ensures not", "cannot show", "possible bit shift", "recommendation not met", "unreachable",
    "assume_specification", "could not prove", "requires not satisfied", "ensures not satisfied", "index out of bounds", "possible",
    "constructed value may fail", "argument bit-width", "array index", "call to non-static function fails", "the condition",
)


def parse_errors(text, fns):
    """-> (obligation failures, rlimit failures, other errors)"""
    failed, rl, other = [], [], []
    cur = None
    for line in text.splitlines():
        m = ERR.match(line)
        if m:
            cur = {"code": m.group(1), "msg": m.group(2), "lines": [], "locs": []}
            if cur["msg"].startswith("aborting due to") or cur["msg"].startswith("could not compile"):
                cur = None
                continue
            if cur["code"]:
                other.append(cur)
            elif "rlimit" in cur["msg"] or "Resource limit" in cur["msg"]:
                rl.append(cur)
            elif any(cur["msg"].startswith(x) for x in OBLIGATION):
                failed.append(cur)
            else:
                other.append(cur)
            continue
        if cur is not None:
            cur["lines"].append(line)
            lm = LOC.match(line)
            if lm:
                cur["locs"].append(int(lm.group(2)))
            for x in re.finditer(r"^\s*(\d+)\s*\|(.*)$", line):
                cur.setdefault("src", []).append((int(x.group(1)), x.group(2)))
    for f in failed + rl + other:
        f["fn"] = None
        cand = list(f["locs"]) + [n for n, _ in f.get("src", [])]
        for fn in fns:
            if any(fn["lines"][0] <= n <= fn["lines"][1] for n in cand):
                f["fn"] = fn["fn"]
                f["key"] = fn["file"] + " " + fn["fn"]
                break
    return failed, rl, other


def run_unit(unit, vx, workdir, tier, seed):
    """Extract and verify one contract unit. A function whose annotations no longer fit its source, or that
    the verifier cannot take, is left out (its contract assumed) and reported; the others are still decided."""
    left_out, notes = [], []
    while True:
        res = run_unit_once(unit, vx, workdir, tier, seed, left_out)
        new = [k for k in res.pop("blame", []) if k not in left_out]
        if res["status"] not in ("lost-anchor", "unsupported") or not new or len(left_out) + len(new) > 8:
            break
        left_out += new
        notes += [n[-600:] for n in res["notes"]]
    if left_out:
        res["left_out"] = left_out
        res["notes"] += notes
        if res["status"] == "proved":
            res["status"] = "partial"
    return res


def run_unit_once(unit, vx, workdir, tier, seed, left_out):
    res = {"unit": unit, "status": None, "failed": [], "functions": [], "obligations": 0, "discharged": 0, "solver_ms": 0, "notes": []}
    vc = os.path.join(VERIF, "contracts", unit + ".vc")
    rs, js = os.path.join(workdir, unit + ".rs"), os.path.join(workdir, unit + ".json")
    skip = [x for k in left_out for x in ("--skip", k)]
    rc, o, e = sh([vx, REPO, vc, rs, js] + skip, 60)
    if rc == 3:
        res["status"] = "lost-anchor"
        res["blame"] = re.findall(r"^LOST-FN: (.*)$", e, re.M)
        res["notes"].append(e.strip()[-600:])
        return res
    if rc != 0:
        raise Machinery("vx failed on %s: %s" % (unit, e[-2000:]))
    meta = json.load(open(js))
    res["functions"] = [f["file"] + " " + f["fn"] for f in meta["functions"] if not f["skipped"]]
    res["items"] = meta["items"]
    res["rewrites"] = meta["rewrites"]
    res["drops"] = meta["drops"]
    skels = {}
    sp = os.path.join(VERIF, "contracts", "skeletons.json")
    if os.path.exists(sp):
        skels = json.load(open(sp)).get(unit, {})
    res["changed_skeletons"] = sorted(f["fn"] for f in meta["functions"] if not f["skipped"] and skels.get(f["file"] + " " + f["fn"]) != f["skeleton"])
    opts = ["--output-json", "--time-expanded", "--multiple-errors", "4", "-V", "spinoff-all"]
    rlimit = UNITS.get(unit, {}).get("rlimit", 20)
    opts += ["--rlimit", str(rlimit)]
    t0 = time.time()
    # vacuity run (below) on a thread of its own
    reach = {}

    def vacuity():
        rs2, js2 = os.path.join(workdir, unit + "_reach.rs"), os.path.join(workdir, unit + "_reach.json")
        sh([vx, REPO, vc, rs2, js2, "--reach"] + skip, 60)
        reach["meta"] = json.load(open(js2))
        reach["err"] = sh(["verus", rs2, "--rlimit", str(rlimit), "-V", "spinoff-all", "--multiple-errors", "2"], 600, cwd=workdir)[2]
        reach["src"] = open(rs2).read().splitlines()

    vt = threading.Thread(target=vacuity)
    vt.start()
    rc, o, e = sh(["verus", rs] + opts, 600, cwd=workdir)
    vt.join()
    res["wall_s"] = round(time.time() - t0, 2)
    if rc == 124:
        res["status"] = "timeout"
        return res
    try:
        out = json.loads(o[o.index("{"):])
    except ValueError:
        raise Machinery("verus gave no result for %s:\n%s" % (unit, (o + e)[-3000:]))
    vr = out.get("verification-results", {})
    bd = []
    for m in out.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        bd += m.get("function-breakdown", [])
    res["obligations"] = len(bd)
    res["discharged"] = sum(1 for b in bd if b.get("success"))
    res["solver_ms"] = out.get("times-ms", {}).get("smt", {}).get("total", 0)
    res["per_function"] = [{"function": b["function"], "ok": b.get("success"), "ms": b.get("time"), "rlimit": b.get("rlimit")} for b in bd]
    failed, rl, other = parse_errors(e, meta["functions"])
    if vr.get("success") and rc == 0:
        res["status"] = "proved"
    elif failed and not other and not vr.get("encountered-vir-error"):
        res["status"] = "failed"
    elif rl and not other:
        res["status"] = "rlimit"
    else:
        res["status"] = "unsupported"
        res["notes"].append("\n".join("%s (in %s)" % (x["msg"], x["fn"]) for x in other)[:1200] or e[-1500:])
        res["blame"] = sorted(set(x["key"] for x in other if x.get("key")))
    res["failed"] = failed
    res["stderr"] = e
    # vacuity: with `assert(false)` at the start of every extracted body, every one must fail
    if res["status"] == "proved":
        if "src" not in reach:
            raise Machinery("vacuity run of %s failed" % unit)
        meta2, e2, src = reach["meta"], reach["err"], reach["src"]
        lines = set(int(m.group(2)) for m in (LOC.match(l) for l in e2.splitlines()) if m)
        vac = []
        for f in meta2["functions"]:
            if not f["reach"]:
                continue
            want = [i + 1 for i in range(f["lines"][0] - 1, min(f["lines"][1] + 1, len(src))) if "/*REACH*/" in src[i]]
            if not want or not any(w in lines for w in want):
                vac.append(f["fn"])
        res["vacuity_checked"] = sum(1 for f in meta2["functions"] if f["reach"])
        if vac:
            raise Machinery("vacuous contracts in %s: %s\n%s" % (unit, vac, e2[-1500:]))
    return res


def update_skeletons():
    vx = build_vx()
    wd = os.path.join(BUILD, "work", "skel")
    os.makedirs(wd, exist_ok=True)
    res = {}
    for f in sorted(os.listdir(os.path.join(VERIF, "contracts"))):
        if not f.endswith(".vc"):
            continue
        u = f[:-3]
        js = os.path.join(wd, u + ".json")
        rc, o, e = sh([vx, REPO, os.path.join(VERIF, "contracts", f), os.path.join(wd, u + ".rs"), js], 60)
        if rc != 0:
            print("skeletons: %s: %s" % (u, e.strip()))
            continue
        res[u] = {x["file"] + " " + x["fn"]: x["skeleton"] for x in json.load(open(js))["functions"]}
    json.dump(res, open(os.path.join(VERIF, "contracts", "skeletons.json"), "w"), indent=1, sort_keys=True)
    open(os.path.join(VERIF, "contracts", "skeletons.json"), "a").write("\n")


def main():
    if sys.argv[1] == "--setup":
        build_vx()
        build_rt()
        return 0
    if sys.argv[1] == "--update-skeletons":
        update_skeletons()
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    workdir = os.path.join(BUILD, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    replays = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(replays, f))
    errs, box = [], {"units": []}

    def guard(f):
        def g():
            try:
                f()
            except Machinery as x:
                errs.append(str(x))
            except Exception as x:  # noqa
                import traceback
                errs.append(traceback.format_exc())
        return g

    def deductive():
        if cfg.get("verus"):
            vx = build_vx()
            results = {}

            def one(u):
                guard(lambda: results.__setitem__(u, run_unit(u, vx, workdir, tier, seed)))()

            for i in range(0, len(cfg["verus"]), 4):
                ts = [threading.Thread(target=one, args=(u,)) for u in cfg["verus"][i : i + 4]]
                [t.start() for t in ts]
                [t.join() for t in ts]
            box["units"] += [results[u] for u in cfg["verus"] if u in results]

    def runtime():
        rt = build_rt()
        out = os.path.join(workdir, "rt.json")
        scale = 30 if tier == "thorough" else 6
        wall = 240000 if tier == "thorough" else cfg.get("rt_ms", 20000)
        rc, o, e = sh([rt, "run", prop, str(seed), str(scale), str(wall), out, replays, os.path.join(VERIF, "known_findings.json")], 700 if tier == "quick" else 3000)
        if rc < 0:
            # the process died (stack overflow, abort): find the contract that does it
            ids = json.loads(sh([rt, "list", prop], 60)[1])
            reps = []
            for i in ids:
                o2 = out + ".one"
                rc2, _, e2 = sh([rt, "run", prop, str(seed), str(scale), str(wall), o2, replays, os.path.join(VERIF, "known_findings.json"), i], 300)
                if rc2 < 0:
                    path = os.path.join(replays, "%s-%s.json" % (prop, i))
                    json.dump({"property": prop, "contract": i, "failure": "the process died with signal %d" % -rc2, "stderr": e2[-2000:], "seed": seed}, open(path, "w"), indent=1)
                    reps.append({"path": path, "contract": i, "failure": "the process died with signal %d" % -rc2})
            if not reps:
                raise Machinery("rt died with %d and no contract reproduces it: %s" % (rc, (o + e)[-2000:]))
            box["rt"] = {"contracts": [], "replays": reps}
            return
        if rc != 0:
            raise Machinery("rt ended with %d: %s" % (rc, (o + e)[-2000:]))
        box["rt"] = json.load(open(out))

    ths = [threading.Thread(target=guard(f)) for f in (deductive, runtime)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if "rt" not in box:
        print("ERROR: the contracts could not be executed on the crate")
        for e in errs:
            print(e)
        return 2
    if errs:
        print("ERROR in the machinery:")
        for e in errs:
            print(e)
        return 2

    known = []
    kp = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kp):
        known = [k for k in json.load(open(kp)) if k["property"] == prop and k["kind"] == "finding"]

    violations = []
    for r in box["rt"]["replays"]:
        violations.append((r["path"], False, "%s: %s" % (r["contract"], r["failure"])))
    inconclusive = []
    failed_obl = []
    for u in box["units"]:
        if u["status"] == "proved":
            continue
        if u["status"] == "failed":
            names = []
            for f in u["failed"]:
                names.append("%s / %s: %s" % (u["unit"], f["fn"] or "?", f["msg"]))
            # annotations that no longer fit the code they are attached to (a loop, closure or callee
            # appeared or went) cannot be told from a defect by the verifier
            hit = set(f["fn"] for f in u["failed"])
            fits = [f for f in hit if f is not None and f not in u["changed_skeletons"]]
            # ... unless an execution of the contracts on the compiled crate fails as well
            if fits or violations:
                failed_obl.append((u, names))
            else:
                inconclusive.append("%s: obligations failed in functions whose shape differs from the annotated one: %s" % (u["unit"], "; ".join(names)))
        elif u["status"] != "partial":
            inconclusive.append("%s: %s %s" % (u["unit"], u["status"], " ".join(u["notes"])[:800]))
        if u.get("left_out"):
            inconclusive.append("%s: the annotations of %s do not fit this source, its contract was assumed for the others: %s" % (u["unit"], ", ".join(u["left_out"]), " ".join(u["notes"])[:800]))
    if failed_obl:
        for u, names in failed_obl:
            path = os.path.join(replays, "%s-obligation-%s.json" % (prop, re.sub(r"\W+", "_", u["unit"])))
            json.dump({"property": prop, "unit": u["unit"], "failed_obligations": names, "verifier_output": u["stderr"][-12000:],
                       "failing_inputs": [v[0] for v in violations]}, open(path, "w"), indent=1)
            print("FAILED-OBLIGATION " + "\n  ".join(names))
            if not violations or all(v[1] for v in violations):
                violations.append((path, True, "; ".join(names)))

    # ------------------------------------------------------------------ evidence
    rt = box["rt"]["contracts"]
    cases = sum(c["cases"] for c in rt)
    ob = sum(u["obligations"] for u in box["units"])
    dis = sum(u["discharged"] for u in box["units"])
    level = cfg["level"]
    cov = {
        "evaluations": cases,
        "distinct_nontrivial": sum(c["distinct"] for c in rt),
        "rule": "executions of contract clauses on the compiled crate; two cases are the same when the contract recorded the same input (or, where it records none, when the same choices were drawn)",
        "samples": [{"contract": c["id"], "clause": c["clause"], "cases": c["cases"], "distinct": c["distinct"], "exhaustive": c["exhaustive"], "inputs": c["samples"]} for c in rt],
        "obligations": ob,
        "discharged": dis,
        "checker_cmd": "verus <unit>.rs --rlimit N -V spinoff-all (Z3)",
        "trusted_base": cfg.get("trusted", []) + ["Verus 0.2026.09.13 and its Z3; vstd's specifications of std", "vx, the extraction tool (drops attributes and doc comments, normalises visibility, flattens crate:: paths, applies the listed rewrites)"],
        "functions_under_contract": [f for u in box["units"] for f in u["functions"]],
        "verus_units": [{k: u.get(k) for k in ("unit", "status", "obligations", "discharged", "solver_ms", "wall_s", "vacuity_checked", "rewrites", "changed_skeletons", "left_out", "per_function", "notes")} for u in box["units"]],
        "explanation": cfg["level_note"],
        "proof_status": "complete" if not inconclusive and not failed_obl else ("inconclusive; this run only executed the contracts (bounded)" if not failed_obl else "obligation failed"),
        "inconclusive": inconclusive,
    }
    assumptions = list(cfg.get("assumptions", []))
    for vc in cfg.get("verus", []):
        assumptions += scan_assumptions(vc)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if cfg.get("level") == "proof" and (ob == 0 or (inconclusive and not violations)):
        ev["level"] = "other" if not inconclusive else "exploration"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(workdir, ignore_errors=True)

    seen = set()
    for c in rt:
        for f in c["fails"]:
            if f["known"]:
                key = (c["id"], f["detail"])
                if key not in seen:
                    seen.add(key)
                    print("KNOWN-FINDING: property=%s %s: %s" % (prop, c["id"], f["detail"]))
    for k in known:
        if (k["contract"], k["failure"]) not in seen:
            print("note: known finding not met in this run: %s: %s" % (k["contract"], k["failure"]))
    for i in inconclusive:
        print("INCONCLUSIVE (the proof does not apply to this source; decided by executing the contracts): " + i)
    print("%s: %d/%d obligations discharged, %d contract executions, %.1f s" % (prop, dis, ob, cases, time.time() - t0))
    if violations:
        for path, nofail, what in violations:
            print("broken: " + what)
            print("VIOLATION property=%s replay=%s%s" % (prop, path, " no-failing-input-found" if nofail else ""))
        return 1
    return 0


def scan_assumptions(unit, seen=None):
    """Every trusted declaration in a contract file, verbatim."""
    seen = seen if seen is not None else set()
    out = []
    d = os.path.join(VERIF, "contracts")
    todo = [unit + ".vc"]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        txt = open(os.path.join(d, f)).read()
        for m in re.finditer(r"^\s*//@ include (\S+)", txt, re.M):
            todo.append(m.group(1))
        lines = txt.splitlines()
        for i, l in enumerate(lines):
            if "assume_specification" in l or "axiom fn" in l or "external_body" in l or re.search(r"\badmit\(|\bassume\(", l):
                s = l.strip()
                if "external_body" in l:
                    j = i + 1
                    while j < len(lines) and (lines[j].strip().startswith("#[") or not lines[j].strip()):
                        j += 1
                    s = "external_body: " + (lines[j].strip() if j < len(lines) else "")
                out.append("%s: %s" % (f, s[:220]))
    return sorted(set(out))


if __name__ == "__main__":
    sys.exit(main())
