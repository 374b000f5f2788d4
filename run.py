#!/usr/bin/env python3
"""Runs one check:   run.py PROPERTY [quick|thorough]      run.py --replay FILE      run.py --setup

Builds the harnesses of /verif from /repo's working tree, runs the exhaustive explorations that decide the
property, writes evidence/PROPERTY.json and reports.  Exit 0: held on everything explored (known findings are
listed on KNOWN-FINDING lines).  Exit 1 and a VIOLATION line: broken.  Exit 2: the check could not be run.
"""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, CRATES, PLAIN  # noqa: E402

COLOR_ENV = ["NO_COLOR", "ALWAYS_COLOR", "CLICOLOR_FORCE", "CLICOLOR", "FORCE_COLOR", "TERM", "COLORTERM", "TERM_PROGRAM",
             "IGNORE_IS_TERMINAL", "CI", "TERM_PROGRAM_VERSION"]


class EngineError(Exception):
    pass


def base_env():
    e = {k: v for k, v in os.environ.items() if k not in COLOR_ENV and not k.startswith(("CARGO", "RUST", "MC_"))}
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e["LC_ALL"] = "C.UTF-8"
    return e


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, dirs, fs in os.walk(p) for f in fs if "/target" not in d and "/.git" not in d)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def cargo(args, crate, env, timeout=1500):
    cmd = ["cargo"] + args
    try:
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise EngineError("build timed out: " + " ".join(cmd))
    return p.returncode, p.stdout


def build(crate, features, bins):
    """Builds `bins` of `crate` with colorz features `features`; returns (directory of the binaries, const-eval failure or None)."""
    spec = CRATES[crate]
    name = crate + "-" + ("+".join(features) or "none")
    target = os.path.join(TARGET, name)
    os.makedirs(target, exist_ok=True)
    lock = open(os.path.join(target, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = base_env()
    env.update(spec.get("env", {}))
    for k, v in list(env.items()):
        env[k] = v.replace("@VERIF@", VERIF)
    if tuple(features) in PLAIN and crate != "conc":
        env["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = env["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = "false"
    # cargo trusts mtimes; this does not: start over whenever the content of the code under test changed
    stamp = os.path.join(target, ".repo-hash")
    now = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "README.md"),
                     os.path.join(VERIF, "run.py")] + [os.path.join(VERIF, x) for x in spec.get("extra", [])])
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        for d in os.listdir(target):
            if d != ".lock":
                p = os.path.join(target, d)
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    common = ["--offline", "--locked", "--release", "--target-dir", target]
    feat = ["--no-default-features"] + (["--features", ",".join(features)] if features else [])
    cmd = ["build"] + common + feat
    for b in bins:
        cmd += ["--bin", b]
    rc, out = cargo(cmd, crate, env)
    out_dir = os.path.join(target, "release")
    if rc != 0:
        # does the crate under test compile by itself?  then a constant of it fails to evaluate in the harness
        if "E0080" in out:
            rc2, _ = cargo(["build"] + common + feat + ["-p", "colorz"], crate, env)
            if rc2 == 0:
                at = [l for l in out.splitlines() if "E0080" in l]
                return out_dir, "a constant of colorz panics when evaluated: " + (at[0].strip() if at else "")
        raise EngineError("build failed: cargo %s\n%s" % (" ".join(cmd), out[-6000:]))
    with open(stamp, "w") as f:
        f.write(now)
    return out_dir, None


def run_one(prop, tier, job, timeout, stop=False):
    crate, features, binary = job["crate"], job["features"], job["bin"]
    out_dir, bad = build(crate, features, job["build"])
    if bad:
        return {"states": 0, "transitions": 0, "traces": 0, "distinct_outcomes": 0, "capped": True, "samples": [], "bounds": {},
                "violations": [{"key": "constant evaluation fails", "detail": bad, "count": 1}]}
    res = os.path.join(out_dir, "%s.%s.%s.json" % (binary, prop, tier))
    if os.path.exists(res):
        os.remove(res)
    env = base_env()
    env["MC_OUT"] = res
    if stop:
        env["MC_STOP"] = "1"
    cmd = [os.path.join(out_dir, binary), prop, tier] + job.get("args", [])
    p = subprocess.Popen(cmd, cwd=VERIF, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        log, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return {"states": 1, "transitions": 0, "traces": 0, "distinct_outcomes": 0, "capped": True, "samples": [], "bounds": {},
                "violations": [{"key": "does not terminate", "detail": "%s gave no answer within %d s" % (" ".join(cmd), timeout), "count": 1}]}
    if p.returncode == 77 or (p.returncode != 0 and "ENGINE:" in log):
        raise EngineError("%s: %s" % (" ".join(cmd), log[-3000:]))
    if p.returncode in (-4, -6, -7, -8, -11):
        return {"states": 1, "transitions": 0, "traces": 0, "distinct_outcomes": 0, "capped": True, "samples": [], "bounds": {},
                "violations": [{"key": "process dies of signal %d" % -p.returncode, "detail": "%s: %s" % (" ".join(cmd), log[-2000:]), "count": 1}]}
    if p.returncode != 0 or not os.path.exists(res):
        raise EngineError("%s ended with %s: %s" % (" ".join(cmd), p.returncode, log[-3000:]))
    with open(res) as f:
        return json.load(f)


def known_findings(prop):
    """lines `known: property=C01 key=<key> :: <what fails>`; `fixed:` lines suppress nothing"""
    found = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("known: property=%s " % prop):
                key, _, what = line.split(" key=", 1)[1].partition(" :: ")
                found[key.strip()] = what.strip()
    return found


def jobs_of(prop, tier):
    jobs = []
    for crate, features, bins, *rest in CHECKS[prop]["runs"]:
        opt = rest[0] if rest else {}
        if tier not in opt.get("tiers", ("quick", "thorough")):
            continue
        for b in bins:
            jobs.append({"crate": crate, "features": list(features), "bin": b, "build": list(bins), "args": opt.get("args", [])})
    return jobs


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = {"states": 0, "transitions": 0, "traces": 0}
    samples, bounds, capped, outcomes, violations = [], {}, False, 0, []
    prints = []
    timeout = 420 if tier == "quick" else 6 * 3600
    known = known_findings(prop)
    for job in jobs_of(prop, tier):
        if tier == "quick" and any(v["key"] not in known for v in violations):
            # one violation decides; the thorough check lists those of every feature set
            capped = True
            break
        r = run_one(prop, tier, job, timeout, stop=not known)
        name = "%s %s [%s]" % (job["bin"], " ".join(job["args"]), "+".join(job["features"]) or "no features")
        for k in total:
            total[k] += r[k]
        outcomes += r["distinct_outcomes"]
        capped |= r["capped"]
        samples += r["samples"][:3]
        bounds[name] = dict(r["bounds"], states=r["states"])
        if r["states"] == 0 and not r["violations"]:
            raise EngineError("%s explored nothing" % name)
        for v in r["violations"]:
            violations.append(dict(v, job=job, where=name))
        if r.get("fingerprint"):
            prints.append((name, r["fingerprint"], job))
    for name, p, job in prints:
        if p != prints[0][1]:
            violations.append({"key": "output differs between feature sets", "count": 1, "job": job, "where": name,
                               "detail": "digest %s with %s, %s with %s" % (prints[0][1], prints[0][0], p, name), "across": [prints[0][2], job]})
    listed = [v for v in violations if v["key"] in known]
    fresh = [v for v in violations if v["key"] not in known]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": CHECKS[prop].get("level", "model_checking"),
        "coverage": {
            "states": total["states"],
            "transitions": total["transitions"],
            "traces_validated_against_impl": total["traces"],
            "distinct_outcomes": outcomes,
            "samples": samples[:12],
            "bounds": bounds,
            "exhaustive": not capped,
            "explanation": CHECKS[prop]["covers"],
        },
        "assumptions": CHECKS[prop]["assumptions"],
        "known_findings": sorted({v["key"] for v in listed}),
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(v["count"] for v in fresh),
    }
    if evidence["level"] in ("fault_enumeration", "exploration"):
        c = evidence["coverage"]
        c["evaluations"] = total["traces"]
        c["distinct_nontrivial"] = outcomes
        c["rule"] = CHECKS[prop]["covers"]
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in sorted({v["key"] for v in listed}):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, known[k]))
    print("%s %s: %d states, %d transitions, %d traces of the code, %.1f s" % (prop, tier, total["states"], total["transitions"], total["traces"], evidence["wall_s"]))
    if not fresh:
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for i, v in enumerate(fresh[:20]):
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, tier, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "job": v["job"], "key": v["key"], "detail": v["detail"], "count": v["count"], "across": v.get("across"),
                       "how": "python3 /verif/run.py --replay " + path}, f, indent=1)
        print("  %s: %s\n    %s (%d times)" % (v["where"], v["key"], v["detail"][:1500], v["count"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    if rec.get("across"):
        p = [run_one(rec["property"], rec["tier"], j, 6 * 3600).get("fingerprint") for j in rec["across"]]
        print("digests: %s" % p)
        if p[0] != p[1]:
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return int(p[0] != p[1])
    r = run_one(rec["property"], rec["tier"], rec["job"], 6 * 3600)
    for v in r["violations"]:
        if v["key"] == rec["key"]:
            print("reproduced: %s\n  %s" % (v["key"], v["detail"]))
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
            return 1
    print("not reproduced: " + rec["key"])
    return 0


def setup():
    """Builds every harness once (a check rebuilds what it needs itself)."""
    done = set()
    for prop in sorted(CHECKS):
        for job in jobs_of(prop, "quick"):
            k = (job["crate"], tuple(job["features"]), tuple(job["build"]))
            if k not in done:
                done.add(k)
                build(*k)
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--replay"]:
            return replay(a[1])
        if a[:1] == ["--setup"]:
            return setup()
        prop = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(prop, tier)
    except EngineError as e:
        print("ENGINE ERROR: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
