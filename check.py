#!/usr/bin/env python3
"""Runs the check of one property: check.py C13 [--tier quick|thorough] [--replay FILE]

Builds the property's binary from /repo's working tree, runs it in parallel
shards, merges what they covered into evidence/<id>.json and prints a
VIOLATION line (exit 1) if a shard's oracle was broken."""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
MODULE = "github.com/KitchenMishap/pudding-shed"

def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off",
             GOFLAGS="-mod=readonly -buildvcs=false", CGO_ENABLED=e.get("CGO_ENABLED", "0"))
    e.pop("GOMAXPROCS", None)
    return e

def die(msg):
    print("ERROR " + msg)
    sys.exit(2)

def config(prop):
    with open(os.path.join(VERIF, "checks.json")) as f:
        return json.load(f)[prop]

def build(prop, cfg, work):
    out = os.path.join(work, "bin")
    cmd = ["go", "build", "-o", out]
    e = env()
    if cfg.get("race"):
        cmd.append("-race")
        e["CGO_ENABLED"] = "1"
    ov = cfg.get("overlay")
    if ov:
        rep = {os.path.join(REPO, k): os.path.join(VERIF, v) for k, v in ov.items()}
        p = os.path.join(work, "overlay.json")
        with open(p, "w") as f:
            json.dump({"Replace": rep}, f)
        cmd += ["-overlay", p]
    cmd.append("./" + prop.lower())
    r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("build failed:\n" + r.stdout[-4000:])
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = config(prop)
    t0 = time.time()
    base = "/dev/shm" if os.path.isdir("/dev/shm") and shutil.disk_usage("/dev/shm").free > (6 << 30) and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    if cfg.get("disk"):
        base = tempfile.gettempdir()
    work = tempfile.mkdtemp(prefix="vt-%s-" % prop, dir=base)
    procs = []
    try:
        binp = build(prop, cfg, work)
        if a.replay:
            e = env(); e.update(VT_REPLAY=os.path.abspath(a.replay), VT_SCRATCH=work)
            r = subprocess.run([binp], env=e, cwd=work)
            sys.exit(r.returncode)
        shards = cfg.get("shards", {}).get(tier, 8)
        deadline = 240 if tier == "quick" else cfg.get("thorough_deadline", 3000)
        hard = deadline + 420
        for i in range(shards):
            d = os.path.join(work, "s%d" % i)
            os.mkdir(d)
            e = env()
            e.update(VT_OUT=d + "/out.json", VT_JOURNAL=d + "/journal.json", VT_SCRATCH=d, VT_SEED=str(seed),
                     VT_SHARD=str(i), VT_SHARDS=str(shards), VT_TIER=tier, VT_DEADLINE=str(deadline), VT_ONLY=a.only, VT_SCALE=str(a.scale),
                     GOMAXPROCS=str(cfg.get("gomaxprocs", 2)), GOTRACEBACK="all", GOMEMLIMIT="2500MiB",
                     VT_KNOWN=os.path.join(VERIF, "known-findings.txt"),
                     GORACE="halt_on_error=1 exitcode=66")
            err = open(d + "/stderr", "w")
            procs.append((i, d, subprocess.Popen([binp], env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True), err))
        failure, errors, results = None, [], []
        pending = list(procs)
        while pending:
            time.sleep(0.05)
            for p in list(pending):
                i, d, pr, err = p
                # keep runaway logging by the code under test from filling the disk
                try:
                    if os.path.getsize(d + "/stderr") > (64 << 20):
                        with open(d + "/stderr", "r+b") as f:
                            f.truncate(1 << 20)
                except OSError:
                    pass
                rc = pr.poll()
                if rc is None:
                    if time.time() - t0 > hard:
                        kill(pr); errors.append("shard %d ran out of time" % i); pending.remove(p)
                    continue
                pending.remove(p)
                kill(pr)
                o = None
                if os.path.exists(d + "/out.json"):
                    o = json.load(open(d + "/out.json"))
                if rc == 0 and o:
                    results.append(o)
                elif rc == 1 and o and o.get("failure"):
                    failure = failure or o["failure"]
                    results.append(o)
                elif rc == 3 or (o and o.get("error")):
                    errors.append("shard %d: %s" % (i, (o or {}).get("error", "") or tail(d)))
                else:
                    t = tail(d, 200000)
                    # The process died under the code being tested: a crash that no
                    # goroutine of the harness could catch is a violation when it is
                    # the tested module that crashed, an error exit otherwise.
                    crash = rc in (2, 66) and ("panic:" in t or "fatal error:" in t or "DATA RACE" in t)
                    envdeath = any(s in t for s in ("out of memory", "cannot allocate memory", "no space left", "too many open files", "resource temporarily unavailable", "newosproc"))
                    if crash and not envdeath and (MODULE in t or "/repo/" in t) and os.path.exists(d + "/journal.json"):
                        j = json.load(open(d + "/journal.json"))
                        j["message"] = "the process crashed while running this case:\n" + head(t)
                        failure = failure or j
                    else:
                        errors.append("shard %d died (status %s): %s" % (i, rc, t[-1500:]))
                if failure:
                    for q in pending:
                        kill(q[2])
                    pending = []
                    break
        # merge
        specs = {}
        for o in results:
            for s in o.get("specs") or []:
                m = specs.setdefault(s["name"], {"rule": s["rule"], "evaluations": 0, "nt": set(), "classes": {}, "samples": [], "stopped_early": False})
                m["evaluations"] += s["evaluations"]
                m["nt"].update(s["nontrivial"] or [])
                for k, v in (s["classes"] or {}).items():
                    m["classes"][k] = m["classes"].get(k, 0) + v
                if len(m["samples"]) < 2:
                    m["samples"] += (s["samples"] or [])[: 2 - len(m["samples"])]
                m["stopped_early"] |= s["stopped_early"]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {
                  "evaluations": sum(m["evaluations"] for m in specs.values()),
                  "distinct_nontrivial": sum(len(m["nt"]) for m in specs.values()),
                  "rule": " | ".join("%s: %s" % (n, m["rule"]) for n, m in sorted(specs.items())),
                  "samples": [{"check": n, "case": s} for n, m in sorted(specs.items()) for s in m["samples"]],
                  "per_check": {n: {"evaluations": m["evaluations"], "distinct_nontrivial": len(m["nt"]), "classes": dict(sorted(m["classes"].items())), "stopped_early_by_time": m["stopped_early"]} for n, m in sorted(specs.items())},
                  "shards": shards},
              "assumptions": cfg.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2),
              "violations": 1 if failure else 0}
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if failure:
            h = hashlib.sha256(json.dumps(failure.get("case"), sort_keys=True).encode()).hexdigest()[:10]
            rp = os.path.join(VERIF, "evidence", "replay", "%s-%s.json" % (prop, h))
            with open(rp, "w") as f:
                json.dump(failure, f, indent=1)
            print("violated by check '%s': %s" % (failure["spec"], failure["message"][:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            sys.exit(1)
        if errors:
            die("; ".join(errors)[:6000])
        print("%s ok: %d cases, %d distinct non-trivial, %.1f s" % (prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
        for line in cfg.get("known", []):
            print("KNOWN-FINDING: property=%s %s" % (prop, line))
        sys.exit(0)
    finally:
        for p in procs:
            kill(p[2])
        assert work.startswith(base + "/vt-")
        shutil.rmtree(work, ignore_errors=True)

def kill(pr):
    try:
        os.killpg(pr.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        pr.wait(timeout=20)
    except subprocess.TimeoutExpired:
        pass

def tail(d, n=2000):
    try:
        with open(d + "/stderr", errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""

def head(t):
    for k in ("DATA RACE", "panic:", "fatal error:"):
        i = t.find(k)
        if i >= 0:
            return t[i:i + 3000]
    return t[:3000]

main()
