#!/usr/bin/env python3
"""Decides one property: python3-vt run.py <ID> [--tier quick|thorough] [--case NAME] [--jobs N] [-v]

Every harness of the property is executed symbolically over the code of /repo as it is now; the
solver's counterexamples are replayed on the real code by replay.py before they are reported.
"""
from __future__ import annotations

import argparse
import gc
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BINOBJ_REPO", "/repo")
OUT = os.path.join(ROOT, "out")
REAL_PYTHON = next((p for p in ("/opt/venv/bin/python", sys.executable) if os.path.exists(p)))


def _reexec():
    env = dict(os.environ)
    if env.get("PYTHONHASHSEED") != "0" or env.get("TZ") != "UTC" or env.get("PYTHONDONTWRITEBYTECODE") != "1":
        env.update(PYTHONHASHSEED="0", TZ="UTC", PYTHONDONTWRITEBYTECODE="1")
        os.execve(sys.executable, [sys.executable, *sys.argv], env)


def parse_args():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--case")
    ap.add_argument("--cfg", type=int)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--samples", metavar="FILE", help="also store the sampled paths")
    ap.add_argument("--dev", action="store_true", help="exit 3 on incompleteness, mismatches or unmet witnesses")
    a = ap.parse_args()
    if a.tier is None:
        a.tier = "quick"
    return a


# ------------------------------------------------------------------------------ one job
def limits(tier):
    return dict(max_steps=400000, max_decisions=6000, query_ms=20000 if tier == "quick" else 60000,
                path_s=60.0 if tier == "quick" else 180.0, max_paths=20000 if tier == "quick" else 200000)


def run_job(mod, cname, ci, cfg, tier, deadline, seed, samples):
    """Explore one harness for one configuration; returns a JSON-able result."""
    from engine import core, rt
    import z3
    fn = rt.CASES[mod][cname][0]
    eng = core.Engine(deadline, seed=seed, **limits(tier))
    res = {"case": cname, "cfg": ci, "candidates": [], "samples": [], "errors": []}
    groups = {}
    executed = set()
    repo_pkg = os.path.join(REPO, "binobj") + os.sep
    mon = sys.monitoring

    def on_start(code, _off):
        if code.co_filename.startswith(repo_pkg):
            executed.add((code.co_filename[len(repo_pkg):], code.co_qualname))
        return mon.DISABLE

    def on_path(e, outcome, payload):
        def inputs(model):
            return e.input_values(model)
        if outcome == "ok":
            n = e.stats.paths
            kept = len(res["samples"]) - min(res.get("cuts", 0), 24)
            if kept < samples or n % 37 == 0 and kept < samples * 3:
                m = e._get_model()
                obs = []
                for name, v in e.observed:
                    try:
                        obs.append([name, r.concrete_of(v, m)])
                    except z3.Z3Exception:
                        obs.append([name, None])
                res["samples"].append({"case": cname, "cfg": ci, "inputs": inputs(m), "choices": dict(e.choices),
                                       "observed": obs})
            return False
        if outcome == "cut":
            # not decided here: a model of the path so far is at least tried on the real code
            res["cuts"] = res.get("cuts", 0) + 1
            if res["cuts"] <= 12 or res["cuts"] % 50 == 0 and res["cuts"] <= 600:
                res["samples"].append({"case": cname, "cfg": ci, "inputs": inputs(None), "choices": dict(e.choices),
                                       "observed": [], "cut": True})
            return False
        if outcome == "violation":
            msg, model = payload.message, payload.model
        elif outcome == "hang":
            msg, model = f"does not terminate: {payload}", None
        else:
            tb = traceback.extract_tb(payload.__traceback__)
            site = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb)
                         if "engine/" not in f.filename), "")
            msg, model = f"unexpected {type(payload).__name__} at {site}: {str(payload)[:200]}", None
            if any(isinstance(payload, t) for t in (NameError, SyntaxError)):
                res["errors"].append(msg)
        key = msg.split(":")[0] if outcome != "violation" else msg
        groups[key] = groups.get(key, 0) + 1
        if groups[key] <= 3:
            try:
                iv = inputs(model)
            except core.EngineControl:
                return False
            res["candidates"].append({"case": cname, "cfg": ci, "message": msg, "group": key, "inputs": iv,
                                      "choices": dict(e.choices), "kind": outcome})
        # a job that keeps failing has answered its question
        return sum(groups.values()) >= 40

    mon.use_tool_id(4, "binobj-verif")
    mon.register_callback(4, mon.events.PY_START, on_start)
    mon.set_events(4, mon.events.PY_START)
    r = None

    def body():
        nonlocal r
        r = rt.SymRT(eng, tier)
        fn(r, cfg)
    t0 = time.monotonic()
    try:
        res["complete"] = eng.explore(body, on_path)
    finally:
        mon.set_events(4, 0)
        mon.free_tool_id(4)
    res["wall"] = time.monotonic() - t0
    res["stats"] = eng.stats.as_dict()
    res["functions"] = sorted(f"{a}:{b}" for a, b in executed)
    return res


class Pool:
    """Runs jobs in forked children, one child per job, at most `n` at a time."""

    def __init__(self, n):
        self.n = n

    def run(self, jobs, work, deadline_of, on_result):
        running = {}
        queue = list(jobs)
        queue.reverse()
        poll = select.poll()
        while queue or running:
            while queue and len(running) < self.n:
                job = queue.pop()
                rfd, wfd = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(rfd)
                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                        sys.setrecursionlimit(20000)
                        try:
                            data = pickle.dumps(work(job))
                        except BaseException as e:  # noqa: BLE001
                            data = pickle.dumps({"crash": f"{type(e).__name__}: {e}",
                                                 "tb": traceback.format_exc()[-2000:]})
                        with os.fdopen(wfd, "wb") as fh:
                            fh.write(data)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(wfd)
                running[rfd] = [pid, job, [], deadline_of(job)]
                poll.register(rfd, select.POLLIN | select.POLLHUP)
            for fd, _ev in poll.poll(500):
                rec = running[fd]
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    rec[2].append(chunk)
                    continue
                self._finish(poll, running, fd, on_result)
            now = time.monotonic()
            for fd in [f for f, r in running.items() if now > r[3]]:
                os.kill(running[fd][0], signal.SIGKILL)
                self._finish(poll, running, fd, on_result, killed=True)

    def _finish(self, poll, running, fd, on_result, killed=False):
        pid, job, chunks, _ = running.pop(fd)
        poll.unregister(fd)
        os.close(fd)
        os.waitpid(pid, 0)
        try:
            r = pickle.loads(b"".join(chunks)) if chunks else {}
        except Exception:  # noqa: BLE001
            r = {}
        if not r:
            r = {"crash": "killed at the time limit" if killed else "worker died"}
        on_result(job, r)


# ------------------------------------------------------------------------------ replay
def replay_items(mod, items, tier, per_item_s=20, workers=8):
    """Run items concretely on the real code; returns a verdict per item."""
    if not items:
        return []
    verdicts = [None] * len(items)
    todo = list(range(len(items)))
    chunks = [todo[i::workers] for i in range(min(workers, len(todo)))]
    procs = []
    tmp = tempfile.mkdtemp(prefix="binobj-replay-")
    try:
        def start(idx):
            path = os.path.join(tmp, f"{idx[0]}-{len(procs)}.json")
            with open(path, "w") as fh:
                json.dump({"module": mod, "tier": tier, "per_item_s": per_item_s,
                           "items": [items[i] for i in idx]}, fh)
            p = subprocess.Popen([REAL_PYTHON, os.path.join(ROOT, "replay.py"), "--batch", path],
                                 stdout=open(path + ".out", "w"), stderr=open(path + ".err", "w"),
                                 env={**os.environ, "BINOBJ_REPO": REPO})
            procs.append((p, idx, path + ".out", time.monotonic() + 30 + per_item_s * 2 + 2.0 * len(idx)))
        for c in chunks:
            start(c)
        k = 0
        while k < len(procs):
            p, idx, out, limit = procs[k]
            k += 1
            try:
                p.wait(max(1, limit - time.monotonic()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            got = []
            with open(out) as fh:
                for line in fh:
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        pass
            for i, g in zip(idx, got):
                verdicts[i] = g
            rest = idx[len(got):]
            if rest:  # the process died or was stuck on its next item
                verdicts[rest[0]] = {"verdict": "hang", "message": "no answer from the real code "
                                     f"(exit {p.returncode})"}
                if rest[1:]:
                    start(rest[1:])
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                p.kill()
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return verdicts


# ------------------------------------------------------------------------------ main
def main():
    args = parse_args()
    _reexec()
    t_start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = args.tier
    pid = args.id
    budget = args.budget or (420.0 if tier == "quick" else 3300.0)
    sys.path.insert(0, ROOT)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)

    from engine import loader, rt
    import importlib.metadata as md
    _real_version = md.version

    def version(name):
        try:
            return _real_version(name)
        except md.PackageNotFoundError:
            if name == "binobj":
                return "0.0.0"
            raise
    md.version = version
    finder = loader.install(REPO, os.path.join(ROOT, "harness"))
    meta = {}
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        d = json.loads(line)
        meta[d["id"]] = d
    mod = pid.lower()
    m = importlib.import_module(mod)
    cases = rt.CASES[mod]

    jobs = []
    for cname, (_fn, cfgs, thorough) in cases.items():
        if args.case and cname != args.case:
            continue
        use = cfgs + thorough if tier == "thorough" and thorough is not None else cfgs
        for i, c in enumerate(use):
            if args.cfg is None or args.cfg == i:
                jobs.append((cname, i, c))
    deadline = t_start + budget
    job_cap = getattr(m, "JOB_SECONDS", {}).get(tier, budget * 0.6)
    samples = getattr(m, "SAMPLES", 3 if tier == "quick" else 5)
    results = []
    gc.collect()
    gc.freeze()

    ncpu = args.jobs or min(8, os.cpu_count() or 1)

    def work(job):
        cname, i, cfg = job
        return run_job(mod, cname, i, cfg, tier, min(deadline, time.monotonic() + cap), seed, samples)

    def on_result(job, r):
        r.setdefault("case", job[0])
        r.setdefault("cfg", job[1])
        results.append(r)
        if args.v:
            s = r.get("stats", {})
            print(f"  {job[0]}[{job[1]}] {str(job[2])[:60]}: paths={s.get('paths')} dec={s.get('decisions')} "
                  f"q={s.get('queries')} obl={s.get('obligations')} triv={s.get('trivial')} inc={s.get('incomplete')} "
                  f"complete={r.get('complete')} wall={r.get('wall', 0):.1f}s solver={s.get('solver_s', 0):.1f} "
                  f"cand={len(r.get('candidates', []))} {s.get('reasons') or ''} {r.get('crash', '')}", flush=True)
            if r.get("tb"):
                print(r["tb"])
            for c in r.get("candidates", [])[:3]:
                print("     CAND", c["message"], c["inputs"], c["choices"])

    # The harnesses take turns, so that none is starved should the time run out; a job gets a first
    # slice of time, and what is unfinished then gets the rest.
    turns = {}
    for j in jobs:
        turns.setdefault(j[0], []).append(j)
    order = [js[k] for k in range(max(map(len, turns.values()), default=0)) for js in turns.values() if k < len(js)]
    cap = min(job_cap, budget * 0.15)
    Pool(ncpu).run(order, work, lambda j: min(deadline, time.monotonic() + cap) + 30, on_result)
    again = [r for r in results if not r.get("complete") and (
        "time or path budget exhausted" in r.get("stats", {}).get("reasons", {}) or "time limit" in r.get("crash", ""))]
    if cap < job_cap and again and not any(r.get("candidates") for r in results):
        retry = {(r["case"], r["cfg"]): r for r in again}
        first, cap = results, job_cap
        results = []
        Pool(ncpu).run([j for j in order if j[:2] in retry], work,
                       lambda j: min(deadline, time.monotonic() + cap) + 30, on_result)
        results = [r for r in results if not r.get("crash")]
        better = {(r["case"], r["cfg"]) for r in results}
        results.extend(r for r in first if (r["case"], r["cfg"]) not in better)

    # -- counterexamples are replayed on the real code
    cands = [c for r in results for c in r.get("candidates", [])]
    cands.sort(key=lambda c: (c["kind"] == "hang", c["kind"] != "violation", c["case"], c["cfg"]))
    chosen, per_group = [], {}
    for c in cands:
        g = (c["case"], c["cfg"], c["group"])
        per_group[g] = per_group.get(g, 0) + 1
        if per_group[g] <= 3 and len(chosen) < 400:
            chosen.append(c)
    hang_items = [c for c in chosen if c["kind"] == "hang"][:4]
    chosen = [c for c in chosen if c["kind"] != "hang"] + hang_items
    verdicts = replay_items(mod, chosen, tier)
    confirmed, unconfirmed = [], []
    for c, v in zip(chosen, verdicts):
        ok = v and v["verdict"] in ("fail", "exception", "hang")
        (confirmed if ok else unconfirmed).append((c, v))

    # -- sampled paths: the encoding must agree with the real code
    samp = [s for r in results for s in r.get("samples", [])]
    if args.samples:
        with open(args.samples, "w") as fh:
            json.dump({"module": mod, "tier": tier, "items": [s for s in samp if not s.get("cut")]}, fh)
    n_cut = sum(1 for s in samp if s.get("cut"))
    sv = replay_items(mod, samp, tier)
    validated, mismatches = 0, []
    for s, v in zip(samp, sv):
        if v is None:
            continue
        if v["verdict"] == "pass":
            if s.get("cut"):
                continue
            exp = [list(x) for x in s["observed"]]
            if json.loads(json.dumps(exp)) == v["observed"]:
                validated += 1
            else:
                mismatches.append((s, v))
        elif v["verdict"] in ("fail", "exception", "hang"):
            confirmed.append((dict(s, message=f"[sampled path] {v['message']}", kind="sample"), v))
        elif not s.get("cut"):
            mismatches.append((s, v))

    known = []
    kf_path = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf_path):
        with open(kf_path) as fh:
            known = [k for k in json.load(fh) if k.get("property") == pid and k.get("status") == "known"]
    kv = replay_items(mod, [{"case": k["case"], "cfg": k.get("cfg", 0), "inputs": k.get("inputs", {}),
                             "choices": k.get("choices", {})} for k in known], tier)
    for k, v in zip(known, kv):
        if v and v["verdict"] in ("fail", "exception", "hang"):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")

    # -- report
    tot = {}
    reasons, covers, functions = {}, {}, set()
    for r in results:
        s = r.get("stats", {})
        for k, v in s.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for k, v in s.get("reasons", {}).items():
            reasons[k] = reasons.get(k, 0) + v
        for k, v in s.get("covers", {}).items():
            covers[r["case"] + ":" + k] = covers.get(r["case"] + ":" + k, 0) + v
        functions.update(r.get("functions", []))
        if r.get("crash"):
            reasons["job crashed: " + r["crash"][:100]] = reasons.get("job crashed: " + r["crash"][:100], 0) + 1
    vacuous = [f"{r['case']}[{r['cfg']}]" for r in results
               if not r.get("crash") and not (r.get("stats", {}).get("obligations") and r["stats"]["paths"])]
    expected_covers = getattr(m, "COVERS", {})
    unmet = [f"{c}:{w}" for c, ws in expected_covers.items() for w in ws
             if f"{c}:{w}" not in covers and (not args.case or args.case == c)]
    complete_jobs = sum(1 for r in results if r.get("complete"))

    bugs = {}
    for c, v in confirmed:
        bugs.setdefault((c["case"], c["message"] if c["kind"] == "violation" else c["kind"]), (c, v))
    rc = 0
    for n, (_key, (c, v)) in enumerate(list(bugs.items())[:20]):
        path = os.path.join(OUT, f"{pid}-{n}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "module": mod, "tier": tier, "message": c["message"],
                       "real": v, "item": {k: c[k] for k in ("case", "cfg", "inputs", "choices")},
                       "replay": f"python3-vt {ROOT}/replay.py {path}"}, fh, indent=1)
        print(f"  {c['case']}[{c['cfg']}]: {c['message']}\n    inputs {c['inputs']} choices {c['choices']}\n"
              f"    real code: {v['verdict']}: {v.get('message', '')}")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1

    mc = meta.get(pid, {"title": ""})
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("decisions", 0),
            "traces_validated_against_impl": validated,
            "samples": [{k: s[k] for k in ("case", "cfg", "inputs", "choices", "observed")} for s in samp[:5]],
            "what": "states = feasible symbolic paths executed to their end; transitions = branch decisions put to "
                    "the solver; obligations = assertions over all values of a path; traces_validated = sampled path "
                    "models run on the real code with identical observations",
            "harness_jobs": len(results), "harness_jobs_complete": complete_jobs,
            "harnesses": {c: {"doc": (f[0].__doc__ or "").strip(), "configurations":
                              sum(1 for j in jobs if j[0] == c)} for c, f in cases.items()},
            "obligations": tot.get("obligations", 0), "discharged": tot.get("discharged", 0),
            "discharged_by_simplification": tot.get("trivial", 0),
            "solver_queries": tot.get("queries", 0), "solver_seconds": round(tot.get("solver_s", 0.0), 2),
            "forks": tot.get("forks", 0), "paths_assumed_away": tot.get("assumed_away", 0),
            "incomplete_paths": tot.get("incomplete", 0), "solver_unknown": tot.get("unknown", 0),
            "incomplete_reasons": reasons,
            "undecided_paths_tried_on_the_real_code": n_cut,
            "unfinished_jobs": [f"{r['case']}[{r['cfg']}]" for r in results if not r.get("complete")][:60],
            "vacuous_jobs": vacuous, "reachability_witnesses": covers, "witnesses_unmet": unmet,
            "counterexamples_confirmed": len(confirmed), "counterexamples_not_reproduced": len(unconfirmed),
            "not_reproduced": [{"case": c["case"], "cfg": c["cfg"], "message": c["message"], "inputs": c["inputs"],
                                "choices": c["choices"], "real": v} for c, v in unconfirmed[:10]],
            "encoding_mismatches": [{"case": s["case"], "cfg": s["cfg"], "inputs": s["inputs"],
                                     "expected": s["observed"], "real": v} for s, v in mismatches[:10]],
            "functions_encoded": sorted(functions),
            "sources": {n: {"file": f, "sha256": h} for n, (f, h) in sorted(finder.loaded.items())
                        if n.startswith("binobj")},
            "bounds": getattr(m, "BOUNDS", {}).get(tier) or getattr(m, "BOUNDS", {}).get("quick", ""),
            "outside": getattr(m, "OUTSIDE", ""),
        },
        "assumptions": getattr(m, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t_start, 2),
        "violations": len(bugs),
    }
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    print(f"{pid} [{tier}] {mc['title']}: {len(results)} jobs ({complete_jobs} complete), {tot.get('paths', 0)} paths, "
          f"{tot.get('obligations', 0)} obligations ({tot.get('discharged', 0)} discharged), {tot.get('queries', 0)} "
          f"queries, solver {tot.get('solver_s', 0):.1f} s, {validated}/{len(samp) - n_cut} traces validated, "
          f"{len(confirmed)} counterexamples confirmed, {len(unconfirmed)} not reproduced, "
          f"{len(mismatches)} mismatches, wall {evidence['wall_s']} s")
    if args.v or args.dev:
        if reasons:
            print("  incomplete:", reasons)
        if vacuous:
            print("  VACUOUS:", vacuous[:10], len(vacuous))
        if unmet:
            print("  UNMET WITNESSES:", unmet)
        for c, v in unconfirmed[:8]:
            print("  NOT REPRODUCED:", c["case"], c["cfg"], c["message"], c["inputs"], c["choices"], "->", v)
        for s, v in mismatches[:5]:
            print("  MISMATCH:", s["case"], s["cfg"], s["inputs"], s["choices"], s["observed"], "->", v)
        errs = [e for r in results for e in r.get("errors", [])]
        if errs:
            print("  ERRORS:", errs[:5])
        if args.dev and rc == 0 and (unconfirmed or mismatches or vacuous or unmet or complete_jobs < len(results)):
            rc = 3
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # noqa: BLE001 -- the check itself is broken: neither "held" nor "violated"
        traceback.print_exc()
        code = 2
    sys.exit(code)
