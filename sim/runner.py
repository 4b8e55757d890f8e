"""Search driver: many seeded runs, minimised replay files, evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARD_RUN_WALL = 120   # seconds of real time after which one run counts as hung


def _int(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")


def load_prop(pid):
    return importlib.import_module("sim.props.%s" % pid.lower())


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def match_known(pid, v):
    for k in known_findings().get("findings", []):
        if k["property"] == pid and k["kind"] == v.kind and k.get("contains", "") in v.msg:
            return k
    return None


class WallHang(BaseException):
    pass


def _alarm(signum, frame):
    raise WallHang("run exceeded %d s of real time" % HARD_RUN_WALL)


def guarded_run(prop, tape, tier, i):
    from . import core
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HARD_RUN_WALL)
    try:
        sim, v = core.run_one(prop.run, tape, tier, i)
    except WallHang as e:
        sim = core.Sim(tape, tier, i)
        v = core.Violation("no-progress-wall", str(e))
    finally:
        signal.alarm(0)
    return sim, v


def worker(prop, pid, tier, seed, w, nworkers, total, deadline, out_fd, want_digests):
    from . import core
    from .tape import Tape
    agg = {
        "runs": 0, "steps": 0, "faults": collections.Counter(), "probes": collections.Counter(),
        "units": collections.Counter(), "scheds": [], "nontrivial": [], "samples": [], "violations": [],
        "error": None, "digests": [], "sched_events": 0, "inconclusive": 0, "gaps": [],
    }
    scheds, nontriv = set(), set()
    try:
        prop_seed = "%s/%s/%d" % (pid, "run", seed)
        for i in range(w, total, nworkers):
            if time.monotonic() > deadline:
                break
            tape = Tape(seed=_int("%s/%d" % (prop_seed, i)))
            sim, v = guarded_run(prop, tape, tier, i)
            agg["runs"] += 1
            agg["steps"] += sim.total_steps
            if sim.inconclusive is not None:
                agg["inconclusive"] += 1
                if sim.inconclusive not in agg["gaps"]:
                    agg["gaps"].append(sim.inconclusive)
                continue
            agg["sched_events"] += sim.sched_events
            agg["faults"].update(sim.faults)
            agg["probes"].update(sim.probes)
            agg["units"].update(sim.units)
            scheds.add(sim.sched_digest)
            if sim.nontrivial:
                nontriv.add(sim.sched_digest)
            if want_digests:
                agg["digests"].append([i, sim.digest, v.kind if v else None])
            if sim.sample is not None and len(agg["samples"]) < 2:
                agg["samples"].append({"run": i, "case": sim.sample})
            if v is not None:
                agg["violations"].append({
                    "run": i, "kind": v.kind, "msg": v.msg, "tape": tape.values,
                    "trace": sim.trace, "digest": sim.digest,
                })
                if match_known(pid, v) is None:
                    break
    except BaseException:  # harness failure: reported as such, never as a verdict
        agg["error"] = traceback.format_exc()
    agg["scheds"] = sorted(scheds)
    agg["nontrivial"] = sorted(nontriv)
    data = json.dumps(agg).encode()
    with os.fdopen(out_fd, "wb") as f:
        f.write(data)


def fork_workers(prop, pid, tier, seed, nworkers, total, wall, want_digests=False):
    deadline = time.monotonic() + wall
    procs = []
    for w in range(nworkers):
        r, wfd = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            code = 0
            try:
                os.close(r)
                worker(prop, pid, tier, seed, w, nworkers, total, deadline, wfd, want_digests)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        procs.append((pid_, r))
    results, errors = [], []
    bufs = [None] * len(procs)

    def reader(k, fd):
        with os.fdopen(fd, "rb") as f:
            bufs[k] = f.read()
    ts = [threading.Thread(target=reader, args=(k, fd)) for k, (_, fd) in enumerate(procs)]
    for t in ts:
        t.start()
    hard = wall + HARD_RUN_WALL + 60
    t0 = time.monotonic()
    for t in ts:
        t.join(max(1, hard - (time.monotonic() - t0)))
    for k, (p, _) in enumerate(procs):
        if ts[k].is_alive():
            os.kill(p, signal.SIGKILL)
            ts[k].join(10)
        _, status = os.waitpid(p, 0)
        if status != 0 or not bufs[k]:
            errors.append("worker %d ended with status %d and no report" % (k, status))
        else:
            a = json.loads(bufs[k])
            if a["error"]:
                errors.append(a["error"])
            results.append(a)
    return results, errors


def minimise_violation(prop, viol, tier, wall):
    from .tape import Tape, minimise
    end = time.monotonic() + wall

    def still(values):
        tape = Tape(values=values)
        try:
            sim, v = guarded_run(prop, tape, tier, viol["run"])
        except Exception:       # a shortened tape may ask the harness for something it cannot do
            return None
        return min(tape.pos, len(values)) if v is not None and v.kind == viol["kind"] else None

    try:
        best, runs = minimise(viol["tape"], still, max_runs=600, deadline=lambda: time.monotonic() > end)
    except BaseException as e:
        print("minimiser stopped: %r" % e)
        return None
    tape = Tape(values=best)
    sim, v = guarded_run(prop, tape, tier, viol["run"])
    if v is None or v.kind != viol["kind"]:
        return None
    return {"run": viol["run"], "kind": v.kind, "msg": v.msg, "tape": best, "trace": sim.trace,
            "digest": sim.digest, "minimiser_runs": runs}


def write_replay(pid, tier, seed, viol, original_len):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (pid, seed, viol["run"]))
    doc = {
        "property": pid, "seed": seed, "tier": tier, "run": viol["run"],
        "violation": {"kind": viol["kind"], "message": viol["msg"]},
        "tape": viol["tape"], "digest": viol["digest"],
        "recorded_choices_before_minimising": original_len,
        "trace": viol["trace"],
        "how_to_replay": "cd /verif && ./check %s --replay %s" % (pid, os.path.relpath(path, VERIF)),
    }
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def replay(pid, path):
    from .tape import Tape
    with open(path) as f:
        doc = json.load(f)
    prop = load_prop(pid)
    setup(prop)
    sim, v = guarded_run(prop, Tape(values=doc["tape"]), doc["tier"], doc["run"])
    for line in sim.trace:
        print("  " + line)
    if v is None:
        print("replay: property %s held (recorded: %s)" % (pid, doc["violation"]["kind"]))
        return 0
    same = v.kind == doc["violation"]["kind"] and sim.digest == doc["digest"]
    print("replay: %s" % v)
    print("replay identical to recording: %s" % same)
    print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)))
    return 1


def setup(prop):
    from . import core
    core.install_seams()
    if hasattr(prop, "setup"):
        prop.setup()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--digests", help="write one event-log digest per run to this file (determinism self-check)")
    ap.add_argument("--only", type=int, help="execute just this run index, verbosely")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-minimise", action="store_true", help="report the raw violation only (development)")
    a = ap.parse_args(argv)
    pid = a.property.upper()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    soft = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
    if a.replay:
        return replay(pid, a.replay)
    t0 = time.monotonic()
    prop = load_prop(pid)
    setup(prop)
    if a.only is not None:
        from .tape import Tape
        tape = Tape(seed=_int("%s/%s/%d/%d" % (pid, "run", a.seed, a.only)))
        sim, v = guarded_run(prop, tape, a.tier, a.only)
        print("\n".join(sim.trace))
        print(v, dict(sim.probes), dict(sim.faults), sim.total_steps, len(tape.values))
        return 0
    total = a.runs or prop.RUNS[a.tier]
    wall = prop.WALL[a.tier] if hasattr(prop, "WALL") else {"quick": 240, "thorough": 2400}[a.tier]
    print("%s tier=%s VERIF_SEED=%d runs=%d workers=%d" % (pid, a.tier, a.seed, total, a.workers), flush=True)
    results, errors = fork_workers(prop, pid, a.tier, a.seed, a.workers, total, wall, bool(a.digests))
    search_wall = time.monotonic() - t0
    viols = sorted((v for r in results for v in r["violations"]), key=lambda v: v["run"])
    if a.digests:
        with open(a.digests, "w") as f:
            for d in sorted(d for r in results for d in r["digests"]):
                f.write("%s\n" % json.dumps(d))
    from .core import Violation
    known, fresh = [], []
    for v in viols:
        k = match_known(pid, Violation(v["kind"], v["msg"]))
        (known if k is not None else fresh).append((v, k))
    rc = 0
    if fresh:
        viol = fresh[0][0]
        print("found: run %d: %s: %s" % (viol["run"], viol["kind"], viol["msg"]), flush=True)
        if a.no_minimise:
            return 1
        small = minimise_violation(prop, viol, a.tier, 45 if a.tier == "quick" else 300)
        if small is not None and match_known(pid, Violation(small["kind"], small["msg"])) is not None:
            small = None
        path = write_replay(pid, a.tier, a.seed, small or viol, len(viol["tape"]))
        rep = subprocess.run([sys.executable, "-m", "sim", pid, "--replay", path], cwd=VERIF,
                             env=dict(os.environ, PYTHONHASHSEED="77"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, timeout=400)
        ok = rep.returncode == 1 and "replay identical to recording: True" in rep.stdout
        if not ok and small is not None:
            path = write_replay(pid, a.tier, a.seed, viol, len(viol["tape"]))
        print("minimised: %s choices -> %d; %s: %s" % (
            len(viol["tape"]), len((small or viol)["tape"]), (small or viol)["kind"], (small or viol)["msg"]))
        print("fresh-process replay reproduces exactly: %s" % ok)
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)), flush=True)
        rc = 1
    seen = set()
    for v, k in known:
        if k["id"] not in seen:
            seen.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if errors and rc == 0:
        print("HARNESS ERROR (no verdict):\n" + "\n".join(errors[:2]))
        rc = 2
    runs = sum(r["runs"] for r in results)
    gaps = sorted({g for r in results for g in r["gaps"]})
    ninc = sum(r["inconclusive"] for r in results)
    for g in gaps[:5]:
        print("inconclusive runs (%d in all): %s" % (ninc, g))
    if runs and 2 * ninc > runs and rc == 0:
        print("HARNESS ERROR: most runs need a library feature the stand-ins lack; no verdict")
        rc = 2
    if runs == 0 and rc == 0:
        print("HARNESS ERROR: no run completed")
        rc = 2
    if not a.no_evidence:
        write_evidence(prop, pid, a, results, runs, total, search_wall, time.monotonic() - t0, len(fresh), len(known))
    print("%s: %d runs, %d distinct schedules, %.1f s, exit %d" % (
        pid, runs, len({s for r in results for s in r["scheds"]}), time.monotonic() - t0, rc))
    return rc


def write_evidence(prop, pid, a, results, runs, total, search_wall, wall, nviol, nknown):
    faults, probes, units = collections.Counter(), collections.Counter(), collections.Counter()
    for r in results:
        faults.update(r["faults"])
        probes.update(r["probes"])
        units.update(r["units"])
    steps = sum(r["steps"] for r in results)
    samples = [s for r in results for s in r["samples"]][:3] or [{"run": 0, "case": "no run completed"}]
    doc = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": prop.LEVEL,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len({s for r in results for s in r["nontrivial"]}),
            "rule": prop.RULE,
            "samples": samples,
            "runs_planned": total,
            "inconclusive_runs": sum(r["inconclusive"] for r in results),
            "distinct_schedules": len({s for r in results for s in r["scheds"]}),
            "schedule_events": sum(r["sched_events"] for r in results),
            "runs_per_hour": round(runs / max(search_wall, 1e-9) * 3600),
            "seeds_per_hour": round(runs / max(search_wall, 1e-9) * 3600),
            "simulated_time_steps": steps,
            "simulated_time_meaning": "executed lines of causalnex code (its logical clock: the code has no timers)",
            "faults_injected": dict(sorted(faults.items())),
            "probes_hit": dict(sorted(probes.items())),
            "operations": dict(sorted(units.items())),
            "real_components": prop.REAL,
            "stubbed_components": prop.STUB,
            "workers": a.workers,
            "exhaustive": False,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 3),
        "violations": nviol,
    }
    if nknown:
        doc["coverage"]["known_findings_seen"] = nknown
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, "%s.json" % pid))
