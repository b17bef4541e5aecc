#!/usr/bin/env python3
"""Runs the simulation for one property (or replays one failure).

    python3 check.py C01 [quick|thorough]     exit 0: held everywhere; exit 1 with VIOLATION lines: broken
    python3 check.py --replay FILE            run one recorded failure again
    python3 check.py --build                  build only
    python3 check.py --determinism [N]        every run of the plans twice, in other processes and worker counts
Environment: VERIF_SEED (default 1), VERIF_TIER.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
OUT = os.path.join(SIM, "target")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, SIM)
from plans import PLANS, CRASH, COMPONENTS, RULES, ASSUMPTIONS  # noqa: E402

VARIANTS = {"ns": [], "s": ["--features", "sync"]}
NAMES = {"ns": "default build (Rc, RefCell)", "s": "build with feature sync (Arc, locks)"}


def log(*a):
    print(*a, flush=True)


def err(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------------------------- building

def build(variants):
    """Compiles the simulator from /repo's working tree. Returns {variant: binary} of those that compile."""
    os.makedirs(os.path.join(OUT, "simstd"), exist_ok=True)
    env = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    rlib = os.path.join(OUT, "simstd", "libsimstd.rlib")
    src = sorted(glob.glob(os.path.join(SIM, "simstd", "*.rs")))
    stamp = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    stampf = os.path.join(OUT, "simstd", "stamp")
    if not (os.path.exists(rlib) and os.path.exists(stampf) and open(stampf).read() == stamp):
        r = subprocess.run(["rustc", "--edition", "2021", "-C", "opt-level=2", "--crate-type", "rlib", "--crate-name",
                            "simstd", "-o", rlib, os.path.join(SIM, "simstd", "lib.rs")], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            err(r.stdout)
            sys.exit(2)
        with open(stampf, "w") as f:
            f.write(stamp)
    env["SIMSTD_DIR"] = os.path.join(OUT, "simstd")
    env["RUSTC_WRAPPER"] = os.path.join(SIM, "rustc-wrap.sh")
    procs = {}
    for v in variants:
        t = os.path.join(OUT, v)
        # The crates under test are always compiled again: time stamps are no evidence.
        for d in glob.glob(os.path.join(t, "*", ".fingerprint", "i18n*")):
            shutil.rmtree(d, ignore_errors=True)
        e = dict(env)
        e["CARGO_TARGET_DIR"] = t
        procs[v] = subprocess.Popen(["cargo", "build", "--offline", "--quiet"] + VARIANTS[v],
                                    cwd=os.path.join(SIM, "harness"), env=e, stdout=subprocess.PIPE,
                                    stderr=subprocess.STDOUT, text=True)
    bins = {}
    for v, p in procs.items():
        o, _ = p.communicate()
        if p.returncode == 0:
            bins[v] = os.path.join(OUT, v, "debug", "simx")
        else:
            err("WARNING: the %s does not compile with the simulator:" % NAMES[v])
            err("\n".join([x for x in o.splitlines() if x.startswith("error") or "-->" in x][:20]))
    if not bins:
        err("neither build compiles")
        sys.exit(2)
    return bins


# ---------------------------------------------------------------------------------------------- running

def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="i18nsim-", dir=base)


def one(binary, spec, tmp, timeout=90):
    """One run in a fresh process: ('ok', result) | ('crash', text) | ('hang', text) | ('harness', text)."""
    env = dict(os.environ, SIMX_DIR=tmp)
    try:
        r = subprocess.run([binary, "one", spec], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % timeout
    if r.returncode == 0:
        return "ok", json.loads(r.stdout)
    if r.returncode == 70:
        return "harness", r.stderr
    if r.returncode == 77:
        return "hang", "no progress"
    return "crash", "process ended with %s: %s" % (r.returncode, r.stderr.strip()[-400:])


def history(binary, plan, seed, worker, of, first, last, tmp, timeout=200):
    """Several runs in one fresh process; the result of the last, or None."""
    try:
        r = subprocess.run([binary, "history", "--plan", plan, "--seed", str(seed), "--worker", str(worker), "--of", str(of),
                            "--from", str(first), "--to", str(last)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, env=dict(os.environ, SIMX_DIR=tmp), timeout=timeout, errors="replace")
        return json.loads(r.stdout) if r.returncode == 0 else None
    except (subprocess.TimeoutExpired, ValueError):
        return None


class Batch:
    """All runs of one plan in one build, spread over worker processes."""

    def __init__(self, variant, binary, plan, seed, of, cap, tmp):
        self.variant, self.binary, self.plan, self.seed, self.of, self.cap, self.tmp = \
            variant, binary, plan, seed, of, cap, tmp
        self.violations = []   # (prop, class, spec, detail, (worker, first run of that process, this run))
        self.crashes = []      # (kind, spec, text)
        self.summaries = []
        self.t0 = time.time()
        self.workers = {}
        for w in range(of):
            self.launch(w, 0)

    def launch(self, w, start):
        d = os.path.join(self.tmp, "%s%d" % (self.variant, w))
        os.makedirs(d, exist_ok=True)
        left = max(1.0, self.cap - (time.time() - self.t0))
        out = open(os.path.join(d, "out"), "wb")
        er = open(os.path.join(d, "err"), "wb")
        env = dict(os.environ, SIMX_DIR=d)
        p = subprocess.Popen([self.binary, "worker", "--plan", self.plan, "--seed", str(self.seed), "--worker", str(w),
                              "--of", str(self.of), "--status", os.path.join(d, "status"), "--cap", "%.1f" % left,
                              "--start", str(start)], stdout=out, stderr=er, env=env)
        out.close()
        er.close()
        self.workers[w] = (p, d, start)

    def poll(self):
        """True once everything has ended."""
        for w, (p, d, start) in list(self.workers.items()):
            rc = p.poll()
            if rc is None:
                continue
            del self.workers[w]
            for line in open(os.path.join(d, "out"), errors="replace"):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if "violation" in j:
                    v = j["violation"]
                    self.violations.append((v["prop"], v["class"], v["spec"], v["detail"],
                                            (v["worker"], v["start"], v["pos"])))
                elif "summary" in j:
                    self.summaries.append(j["summary"])
            if rc == 0:
                continue
            text = open(os.path.join(d, "err"), errors="replace").read()[-600:]
            if rc == 70:
                err("the harness failed: " + text)
                self.crashes.append(("harness", "", text))
                continue
            st = open(os.path.join(d, "status"), errors="replace").read().strip().split(" ", 1)
            if len(st) < 2 or not st[0].isdigit():
                self.crashes.append(("harness", "", "worker ended with %s before its first run: %s" % (rc, text)))
                continue
            kind = "hang" if rc == 77 else "crash"
            self.crashes.append((kind, st[1].strip(), "ended with %s; %s" % (rc, text)))
            n = len([c for c in self.crashes if c[0] == kind])
            if kind == "crash" and n < 12 and time.time() - self.t0 < self.cap:
                self.launch(w, int(st[0]) + 1)
        return not self.workers

    def stop(self):
        for p, _, _ in self.workers.values():
            p.kill()


def known_findings():
    """[(property, class, text)] of findings that are recorded rather than repaired."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                f = dict(x.split("=", 1) for x in line[7:].strip().split(" | ") if "=" in x)
                out.append((f["property"], f.get("class", ""), f.get("text", ""), f.get("what", "")))
    return out


def replay_file(prop, variant, cls, result, detail, seed):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((prop + cls + result["spec"] + variant + str(result.get("history"))).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump({
            "property": prop, "build": variant, "class": cls, "detail": detail, "spec": result["spec"],
            "obs_hash": result.get("obs_hash"), "sched_hash": result.get("sched_hash"), "seed": seed,
            "schedule": result.get("schedule"), "trace": result.get("trace"), "threads": result.get("threads"),
            "history": result.get("history"),
            "replay_with": "python3 %s --replay %s" % (os.path.join(HERE, "check.py"), path),
        }, f, indent=1, ensure_ascii=False)
    return path


def confirm(prop, batch, cls, specs, tmp):
    """Runs again in fresh processes, minimises. Returns (result, detail) or None."""
    for spec, detail, where in specs[:6]:
        k, r = one(batch.binary, spec, tmp)
        if k != "ok":
            continue
        k2, r2 = one(batch.binary, spec, tmp)
        if k2 != "ok" or r2["obs_hash"] != r["obs_hash"]:
            err("not repeatable: %s" % spec)
            continue
        hit = [v for v in r["violations"] if v["class"] == cls and prop in v["props"]]
        if not hit:
            err("not confirmed: %s %s" % (cls, spec))
            continue
        best, bdetail = r, hit[0]["detail"]
        try:
            m = subprocess.run([batch.binary, "minimise", spec, cls, prop], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, timeout=60, env=dict(os.environ, SIMX_DIR=tmp))
            if m.returncode == 0:
                cand = json.loads(m.stdout)
                # The minimised run, in another fresh process.
                k3, r3 = one(batch.binary, cand["spec"], tmp)
                if k3 == "ok":
                    hit3 = [v for v in r3["violations"] if v["class"] == cls and prop in v["props"]]
                    if hit3 and r3["obs_hash"] == cand["obs_hash"]:
                        best, bdetail = r3, hit3[0]["detail"]
        except (subprocess.TimeoutExpired, ValueError):
            pass
        return best, bdetail
    # A failure that needs what earlier runs left behind in the process: the shortest stretch of runs that shows it.
    for spec, detail, (w, start, pos) in specs[:2]:
        back, best = 1, None
        while best is None:
            first = max(start, pos - back)
            r = history(batch.binary, batch.plan, batch.seed, w, batch.of, first, pos, tmp)
            if r and any(v["class"] == cls and prop in v["props"] for v in r["violations"]):
                best = (first, r)
            if first == start:
                break
            back *= 4
        if best is None:
            continue
        first, r = best
        r2 = history(batch.binary, batch.plan, batch.seed, w, batch.of, first, pos, tmp)
        hit = [v for v in (r2 or {"violations": []})["violations"] if v["class"] == cls and prop in v["props"]]
        if not hit or r2["obs_hash"] != r["obs_hash"]:
            err("not repeatable: runs %d to %d of worker %d" % (first, pos, w))
            continue
        r["history"] = {"plan": batch.plan, "seed": batch.seed, "worker": w, "of": batch.of, "from": first, "to": pos}
        return r, "after %d earlier run(s) in the same process: %s" % (pos - first, hit[0]["detail"])
    return None


def check(prop, tier, seed):
    t0 = time.time()
    plan = PLANS[prop]
    bins = build(sorted({p[0] for p in plan}))
    t_build = time.time() - t0
    tmp = scratch()
    batches = []
    try:
        factor = 1 if tier == "quick" else 25
        cap = 240.0 if tier == "quick" else 2400.0
        for v in sorted({p[0] for p in plan}):
            if v not in bins:
                continue
            text = ",".join("%s:%s:%d" % (f, m, n * factor if n > 1 else 1) for (b, f, m, n) in plan if b == v)
            batches.append(Batch(v, bins[v], text, seed, 8, cap, tmp))
        deadline = time.time() + cap + 120
        while not all([b.poll() for b in batches]):
            time.sleep(0.05)
            if time.time() > deadline:
                for b in batches:
                    b.stop()
                err("the workers did not end in time")
                return 2
        t_run = time.time() - t0 - t_build
        found, errors = [], []
        for b in batches:
            by = {}
            for (p, c, s, d, where) in b.violations:
                if p == prop:
                    by.setdefault(c, []).append((s, d, where))
            for c, specs in sorted(by.items()):
                if len(found) >= 6:
                    break
                r = confirm(prop, b, c, specs, tmp)
                if r is None:
                    errors.append("unconfirmed %s in %s" % (c, specs[0][0]))
                else:
                    found.append((b, c, r[0], r[1]))
            seen_kind = set()
            for kind, spec, text in b.crashes:
                if kind == "harness":
                    errors.append(text)
                    continue
                fam = spec.split(";")[0].replace("family=", "")
                if prop not in CRASH.get(fam, ["C02"]) or (kind, fam) in seen_kind:
                    continue
                k, r = one(b.binary, spec, tmp)
                if k in ("crash", "hang"):
                    seen_kind.add((kind, fam))
                    found.append((b, k, {"spec": spec, "trace": [r]}, r))
        status = 0
        known = known_findings()
        nviol = 0
        for b, c, r, d in found:
            whole = d + "\n" + "\n".join(r.get("trace") or [])
            k = [x for x in known if x[0] == prop and (not x[1] or x[1] == c) and x[2] and x[2] in whole]
            if k:
                log("KNOWN-FINDING: property=%s %s" % (prop, k[0][3]))
                continue
            nviol += 1
            path = replay_file(prop, b.variant, c, r, d, seed)
            log("VIOLATION property=%s replay=%s" % (prop, path))
            log("  %s [%s]: %s" % (c, NAMES[b.variant], d[:1500]))
            status = 1
        if status == 0 and errors:
            for e in errors:
                err("ERROR: " + e)
            status = 2
        evidence(prop, tier, seed, batches, t0, t_build, t_run, nviol)
        total = sum(f["runs"] for b in batches for s in b.summaries for f in s["families"].values())
        log("%s %s seed=%d: %d simulated runs, build %.0f s, simulation %.0f s, %d violation(s)"
            % (prop, tier, seed, total, t_build, t_run, nviol))
        return status
    finally:
        for b in batches:
            b.stop()
        shutil.rmtree(tmp, ignore_errors=True)


def evidence(prop, tier, seed, batches, t0, t_build, t_run, nviol):
    runs = ops = steps = switches = time_us = evals = 0
    sched, nontrivial, sites = set(), set(), set()
    fired, probes, fams = {}, {}, {}
    samples = []
    truncated = False
    for b in batches:
        for s in b.summaries:
            truncated |= s["truncated"]
            for name, f in s["families"].items():
                key = "%s [%s]" % (name, b.variant)
                runs += f["runs"]
                ops += f["ops"]
                steps += f["steps"]
                switches += f["switches"]
                time_us += f["time_us"]
                evals += f["checked"].get(prop, 0)
                sched.update((key, x) for x in f["sched"])
                nontrivial.update((key, x) for x in f["nontrivial"])
                sites.update((key, x) for x in f["sites"])
                for k, v in f["fired"].items():
                    fired[k] = fired.get(k, 0) + v
                for k, v in f["probes"].items():
                    probes[k] = probes.get(k, 0) + v
                fams[key] = fams.get(key, 0) + f["runs"]
                if f["sample"] and not any(x["family"] == key for x in samples):
                    samples.append({"family": key, "trace": f["sample"]})
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontrivial),
            "rule": RULES,
            "samples": samples[:6],
            "oracle_evaluations_for_this_property": evals,
            "runs_by_family": fams,
            "operations": ops,
            "scheduling_points": steps,
            "context_switches": switches,
            "distinct_interleavings": len(sched),
            "distinct_switch_sites": len(sites),
            "simulated_seconds": round(time_us / 1e6, 3),
            "faults_injected": fired,
            "rare_conditions_reached": probes,
            "runs_per_hour": int(runs / max(t_run, 0.01) * 3600),
            "seeds_per_hour": int(runs / max(t_run, 0.01) * 3600),
            "truncated_by_wall_clock": truncated,
            "components": COMPONENTS,
            "builds": [NAMES[b.variant] for b in batches],
            "build_s": round(t_build, 1),
            "simulation_s": round(t_run, 1),
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": nviol,
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


def replay(path):
    j = json.load(open(path))
    bins = build([j["build"]])
    tmp = scratch()
    try:
        if j.get("history"):
            h = j["history"]
            r = history(bins[j["build"]], h["plan"], h["seed"], h["worker"], h["of"], h["from"], h["to"], tmp)
            k = "ok" if r else "harness"
            r = r or "no result"
        else:
            k, r = one(bins[j["build"]], j["spec"], tmp)
        if k in ("crash", "hang"):
            log("VIOLATION property=%s replay=%s" % (j["property"], path))
            log("  %s: %s" % (k, r))
            return 1
        if k != "ok":
            err(r)
            return 2
        for t in r["trace"]:
            log("  " + t)
        hit = [v for v in r["violations"] if v["class"] == j["class"] and j["property"] in v["props"]]
        if hit:
            log("VIOLATION property=%s replay=%s" % (j["property"], path))
            log("  %s; the run is %s the recorded one"
                % (hit[0]["detail"], "exactly" if r["obs_hash"] == j["obs_hash"] else "NOT exactly"))
            return 1
        log("the recorded failure does not occur on this tree")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def determinism(n):
    """Every run of all plans (first n of each) in several processes, worker counts and environments."""
    bins = build(["ns", "s"])
    tmp = scratch()
    bad = total = 0
    try:
        todo = sorted({(b, f, m) for p in PLANS.values() for (b, f, m, _) in p})
        for b, f, m in todo:
            if b not in bins:
                continue
            base = None
            for of, extra in ((1, {}), (3, {"A": "1" * 977}), (8, {"MALLOC_PERTURB_": "165"}), (5, {"MALLOC_ARENA_MAX": "1"})):
                ps = []
                for w in range(of):
                    d = os.path.join(tmp, "d%s%d" % (b, w))
                    os.makedirs(d, exist_ok=True)
                    ps.append(subprocess.Popen([bins[b], "hashes", "--plan", "%s:%s:%d" % (f, m, n), "--seed", "7",
                                                "--worker", str(w), "--of", str(of)], stdout=subprocess.PIPE, text=True,
                                               env=dict(os.environ, SIMX_DIR=d, **extra)))
                lines = sorted(x for p in ps for x in p.communicate()[0].splitlines())
                if base is None:
                    base = lines
                    total += len(lines)
                elif lines != base:
                    diff = set(lines) ^ set(base)
                    bad += 1
                    log("DIFFERENT: %s %s:%s with %d workers: %d lines, e.g. %s" % (b, f, m, of, len(diff), sorted(diff)[:2]))
        log("determinism: %d runs, 4 executions each, %d differing batches" % (total, bad))
        return 0 if bad == 0 else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        err(__doc__)
        return 2
    if a[0] == "--build":
        build(["ns", "s"])
        return 0
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "--determinism":
        return determinism(int(a[1]) if len(a) > 1 else 60)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return check(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
