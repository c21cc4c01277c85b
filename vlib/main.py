"""Runs one check: distributes its jobs over worker processes, collects what the
monitors observed, writes evidence and gives a three-valued verdict
(0 held on everything observed, 1 violated, 2 inconclusive)."""
from __future__ import annotations

import argparse
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    out = {}
    try:
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                if f["property"] == prop:
                    out[f["key"]] = line.split(None, 3)[3]
    except OSError:
        pass
    return out


class Worker:
    def __init__(self, prop, tier, seed):
        self.p = subprocess.Popen([sys.executable, "-m", "vlib.worker", prop, tier, str(seed)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, text=True, cwd=ROOT)
        self.err = []
        threading.Thread(target=self._drain, daemon=True).start()
        self.q = queue.Queue()
        threading.Thread(target=self._read, daemon=True).start()

    def _drain(self):
        for line in self.p.stderr:
            self.err.append(line)
            del self.err[:-60]

    def _read(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)

    def recv(self, timeout):
        try:
            line = self.q.get(timeout=timeout)
        except queue.Empty:
            return "timeout"
        return None if line is None else json.loads(line)

    def send(self, obj):
        try:
            self.p.stdin.write(json.dumps(obj) + "\n")
            self.p.stdin.flush()
            return True
        except (BrokenPipeError, OSError):
            return False

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:  # noqa: BLE001
            pass


class Pool:
    """Runs jobs on `n` worker processes with retries in fresh processes."""

    def __init__(self, prop, tier, seed, n, job_timeout, deadline):
        self.a = (prop, tier, seed)
        self.n, self.job_timeout, self.deadline = n, job_timeout, deadline

    def run(self, messages, fresh=False):
        todo = queue.Queue()
        for m in messages:
            todo.put((m, 0))
        results, bad = [], []
        lock = threading.Lock()

        def serve():
            w = None
            while True:
                try:
                    msg, tries = todo.get_nowait()
                except queue.Empty:
                    break
                left = self.deadline - time.time()
                if left < 5:
                    with lock:
                        bad.append((msg, "deadline"))
                    continue
                why = None
                ans = None
                if w is None:
                    w = Worker(*self.a)
                    r = w.recv(120)
                    if not isinstance(r, dict):
                        why = "worker start: " + "".join(w.err[-15:])
                if why is None:
                    if not w.send(msg):
                        why = "worker gone: " + "".join(w.err[-6:])
                    else:
                        t1 = time.time()
                        ans = w.recv(min(self.job_timeout, left))
                        if os.environ.get("VLIB_TIMES"):
                            print(f"  {time.time() - t1:6.1f} s  {json.dumps(msg['job'])[:150]}")
                        if ans == "timeout":
                            why = "watchdog"
                        elif ans is None:
                            why = "worker died: " + "".join(w.err[-6:])
                        elif "env" in ans:
                            why = "env: " + ans["env"]
                        elif "error" in ans:
                            why = "harness: " + ans["error"]
                if why is None:
                    with lock:
                        results.append((msg, ans))
                    if fresh or ans.get("maps", 0) > 25000:
                        w.kill()
                        w = None
                    continue
                w.kill()
                w = None
                if tries < 2 and why != "watchdog":
                    todo.put((msg, tries + 1))
                else:
                    with lock:
                        bad.append((msg, why))
            if w is not None:
                w.kill()

        ts = [threading.Thread(target=serve) for _ in range(min(self.n, max(1, len(messages))))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return results, bad


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only", help="comma separated job indices")
    ap.add_argument("--replay")
    args = ap.parse_args()
    prop, tier, seed = args.prop.upper(), args.tier, args.seed
    t0 = time.time()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module(f"vlib.checks.{prop.lower()}")

    if args.replay:
        rep = json.load(open(args.replay))
        jobs, case, seed, tier = [rep["job"]], rep.get("case"), rep["seed"], rep["tier"]
    else:
        jobs, case = mod.jobs(tier, seed), None
        for i, j in enumerate(jobs):
            j["i"] = i
        if args.only:
            keep = {int(x) for x in args.only.split(",")}
            jobs = [j for j in jobs if j["i"] in keep]

    limit = 780 if tier == "quick" else getattr(mod, "THOROUGH_LIMIT", 5400)
    pool = Pool(prop, tier, seed, args.procs, 420 if tier == "quick" else 1200, t0 + limit)
    msgs = [{"job": j, "case": case} for j in jobs]
    results, bad = pool.run(msgs)

    known = known_findings(prop)
    viol, seen_known, flaky = [], {}, []
    suspicious = [(m, r) for m, r in results if r["n_viol"]]
    for m, r in suspicious:
        fresh_v = []
        for v in r["violations"]:
            if v["key"] in known:
                seen_known[v["key"]] = v
            else:
                fresh_v.append(v)
        if not fresh_v and r["n_viol"] <= len(r["violations"]):
            continue
        viol.append((m, fresh_v or r["violations"][:1]))
    # a violation has to show again in a fresh process (guards against the sandbox)
    if viol and not getattr(mod, "SCHEDULE_DEPENDENT", False) and not args.replay:
        pool.deadline = max(pool.deadline, time.time() + 60)
        again, badr = pool.run([m for m, _ in viol[:8]], fresh=True)
        ok = {m["job"]["i"] for m, r in again if r["n_viol"]}
        gone = {m["job"]["i"] for m, r in again if not r["n_viol"]}
        flaky = [v for v in viol if v[0]["job"]["i"] in gone]
        viol = [v for v in viol if v[0]["job"]["i"] not in gone]
        if viol and not ok:
            bad += badr
            flaky += viol
            viol = []

    # -------------------------------------------------------------- evidence
    cases = sum(r["cases"] for _, r in results)
    fps = set()
    clauses, dims, samples = {}, {}, []
    for _, r in results:
        fps |= set(r["nontrivial"])
        for k, (n, w) in r["clauses"].items():
            c = clauses.setdefault(k, {"observations": 0, "worst_error_over_tolerance": 0.0})
            c["observations"] += n
            c["worst_error_over_tolerance"] = max(c["worst_error_over_tolerance"], round(w, 6))
        for d, vals in r["dims"].items():
            t = dims.setdefault(d, {})
            for k, n in vals.items():
                t[k] = t.get(k, 0) + n
        if len(samples) < 4:
            samples += r["samples"]
    for d in list(dims):
        if len(dims[d]) > 60:
            dims[d] = {"distinct_values": len(dims[d]),
                       "top": dict(sorted(dims[d].items(), key=lambda kv: -kv[1])[:25])}
    inconclusive = len(bad) + len(flaky)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(fps), "rule": mod.RULE,
            "samples": samples[:4], "workload_jobs": len(jobs), "jobs_completed": len(results),
            "jobs_inconclusive": inconclusive, "skipped_out_of_domain": sum(r["skips"] for _, r in results),
            "monitor_observations": sum(c["observations"] for c in clauses.values()),
            "monitors": clauses, "dimensions": dims,
            "inconclusive_reasons": sorted({w[:160] for _, w in bad})[:10],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if not args.replay and not args.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    for k, v in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    if viol:
        rdir = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, (m, vs) in enumerate(viol[:5]):
            v = vs[0]
            path = args.replay or os.path.join(rdir, f"{prop}-{seed}-{m['job']['i']}.json")
            if not args.replay:
                json.dump({"property": prop, "tier": tier, "seed": seed, "job": m["job"],
                           "case": v["case"], "violations": vs}, open(path, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  clause={v['clause']} job={m['job']} case={v['case']}")
            print("  " + json.dumps(v["detail"])[:600])
            print("  " + json.dumps(v["desc"])[:600])
        if len(viol) > 5:
            print(f"  ... {len(viol)} violating jobs in total")
        sys.exit(1)
    print(f"{prop} {tier} seed={seed}: {cases} cases, {len(fps)} distinct non-trivial, "
          f"{ev['coverage']['monitor_observations']} observations, {len(results)}/{len(jobs)} jobs, "
          f"{inconclusive} inconclusive, {ev['wall_s']} s")
    for m, w in bad[:3]:
        print("  inconclusive:", json.dumps(m["job"])[:200], w[-1500:])
    if cases == 0 or inconclusive > 0.1 * len(jobs) or (len(fps) < getattr(mod, "MIN_NONTRIVIAL", 5) and not args.only and not args.replay):
        print(f"{prop}: INCONCLUSIVE")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
