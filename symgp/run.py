"""Run the check of one property: `python -m symgp.run C06 [--tier quick]`."""

import argparse
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import warnings

warnings.simplefilter("ignore")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _worker(conn, prop, name, params, budget, tier):
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(20000)
    try:
        from . import engine
        from .scenario import find

        sc = find(prop, name)
        out = engine.run_symbolic(sc.fn, params, budget_s=budget)
        conn.send(("ok", out.stats, out.candidates, out.samples, out.wall, out.labels))
    except BaseException as e:  # noqa
        import traceback

        conn.send(("error", f"{type(e).__name__}: {e}", traceback.format_exc()))
    conn.close()


class Job:
    def __init__(self, sc, params, budget):
        self.sc, self.params, self.budget = sc, params, budget
        self.result = None
        self.wall = 0

    @property
    def title(self):
        return f"{self.sc.name}{self.params!r}"

    def start(self, tier):
        self.conn, child = mp.Pipe(False)
        self.proc = mp.Process(
            target=_worker, args=(child, self.sc.prop, self.sc.name, self.params, self.budget, tier)
        )
        self.t0 = time.time()
        self.proc.start()
        child.close()

    def poll(self, deadline):
        """Returns whether the job is done."""
        try:
            if self.conn.poll():
                self.result = self.conn.recv()
        except (EOFError, OSError):
            self.result = ("error", "worker died", "")
        if self.result is None and not self.proc.is_alive() and not self.conn.poll(0.05):
            self.result = ("error", f"worker died with exit code {self.proc.exitcode}", "")
        now = time.time()
        if self.result is None and (now > deadline or now - self.t0 > self.budget * 1.5 + 10):
            self.result = ("error", f"time limit after {now - self.t0:.0f} s", "")
        if self.result is None:
            return False
        self.wall = now - self.t0
        if self.proc.is_alive():
            self.proc.join(0.2)
        if self.proc.is_alive():
            os.kill(self.proc.pid, signal.SIGKILL)
            self.proc.join()
        self.conn.close()
        return True


def schedule(jobs, workers, deadline, tier):
    todo, running = list(jobs), []
    while todo or running:
        while todo and len(running) < workers:
            j = todo.pop(0)
            if time.time() > deadline:
                j.result = ("error", "not started: time limit of the check", "")
                continue
            j.start(tier)
            running.append(j)
        running = [j for j in running if not j.poll(deadline)]
        time.sleep(0.01)


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                # known: property=C03 case="name(params)" label="..." :: what fails
                head, _, what = line.partition(" :: ")
                case = head.split('case="')[1].split('"')[0]
                label = head.split('label="')[1].split('"')[0]
                res.append((case, label, what))
    return res


def replay(path, timeout=150):
    """Run a counterexample against the real code, in a new process without any stubs."""
    try:
        p = subprocess.run(
            [sys.executable, "-m", "symgp.replay", path],
            cwd=ROOT,
            capture_output=True,
            text=True,
            timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    return p.returncode == 1 and "REPRODUCED" in p.stdout, p.stdout[-3000:] + p.stderr[-1000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    t0 = time.time()
    prop, tier = args.prop, args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = 600 if tier == "quick" else 3300
    deadline = t0 + limit
    from . import engine  # noqa: F401
    from .patches import STUBS
    from .scenario import load

    scs = load(prop)
    jobs = []
    for sc in scs:
        if args.only and args.only not in sc.name:
            continue
        for p in sc.params(tier):
            jobs.append(Job(sc, p, sc.budget or (150 if tier == "quick" else 900)))
    schedule(jobs, args.workers, deadline, tier)

    total = engine.Stats()
    violations, undecided, samples, per_job, findings = [], [], [], [], []
    known = known_findings(prop)
    outdir = os.path.join(ROOT, "evidence", "replays", prop)
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.remove(os.path.join(outdir, f))
    n_replay = 0
    reproduced = 0
    for j in jobs:
        cands = []
        if j.result[0] == "ok":
            _, st, cands, smp, wall, labels = j.result
            total.merge(st)
            for s in smp:
                if len(samples) < 8:
                    samples.append({"scenario": j.title, **s})
            for u in st.undecided:
                undecided.append(f"{j.title}: {u}")
            per_job.append(
                {
                    "scenario": j.sc.name,
                    "params": repr(j.params),
                    "paths": st.paths,
                    "branches": st.branches,
                    "obligations": st.obligations,
                    "discharged": st.discharged,
                    "queries": st.queries + st.feasibility,
                    "solver_s": round(st.solver_s, 3),
                    "wall_s": round(j.wall, 2),
                    "validated": st.validated,
                }
            )
            if st.paths and not st.validated and not cands and st.validation_skipped == 0:
                undecided.append(f"{j.title}: no path was reached concretely")
            extra = bool(st.undecided)
        else:
            undecided.append(f"{j.title}: {j.result[1]}")
            if args.v:
                print(j.result[2])
            per_job.append({"scenario": j.sc.name, "params": repr(j.params), "error": j.result[1]})
            extra = True
        if extra and not cands:
            # Nothing was decided: at least look whether the inputs at hand fail.
            cands = [
                {"label": "-", "kind": "fallback", "detail": "", "choices": {}, "flags": {}, "values": [{}]}
            ]
        rep = False
        for c in cands:
            for k, vals in enumerate(c["values"]):
                if rep or n_replay >= 40:
                    break
                n_replay += 1
                path = os.path.join(outdir, f"{j.sc.name}-{n_replay}.json")
                rec = {
                    "property": prop,
                    "scenario": j.sc.name,
                    "params": list(j.params) if isinstance(j.params, tuple) else j.params,
                    "label": c["label"],
                    "kind": c["kind"],
                    "detail": c["detail"],
                    "choices": c["choices"],
                    "flags": c["flags"],
                    "values": vals,
                    "how": f"cd /verif && ./check.sh replay {path}",
                }
                with open(path, "w") as f:
                    json.dump(rec, f, indent=1)
                ok, log = replay(path)
                if ok:
                    rep = True
                    reproduced += 1
                    line = [l for l in log.splitlines() if l.startswith("REPRODUCED")][0]
                    label = line.split("label=<")[1].split(">")[0]
                    hit = [w for cs, lb, w in known if cs == j.title and lb == label]
                    if hit:
                        findings.append(hit[0])
                        print(f"KNOWN-FINDING: property={prop} {j.title} {label}: {hit[0]}")
                    else:
                        violations.append((j.title, c, path, line))
                elif args.v:
                    print("not reproduced:", j.title, c["label"], c["kind"], c["detail"][:500], log[-600:])
                    if c.get("traceback"):
                        print(c["traceback"])
        if cands and not rep:
            for c in cands[:3]:
                if c["kind"] != "fallback":
                    undecided.append(
                        f"{j.title}: {c['kind']} at {c['label']}: {c['detail'][:300]} (does not reproduce)"
                    )
    wall = time.time() - t0
    functions = sorted(total.functions)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": total.paths,
            "transitions": total.branches + total.obligations,
            "traces_validated_against_impl": total.validated,
            "samples": samples,
            "explanation": (
                "states: feasible symbolic paths through the real code, each of which stands for all "
                "values of its inputs; transitions: symbolic branch decisions plus assertions; "
                "traces_validated: paths whose symbolic results were compared with a run of the "
                "unpatched code on floats that satisfy the path condition"
            ),
            "exhaustive": not undecided,
            "paths_infeasible_or_cut": total.cut,
            "obligations": total.obligations,
            "discharged": total.discharged,
            "solver": {
                "name": "z3 " + engine.z3.get_version_string(),
                "obligation_queries": total.queries,
                "feasibility_queries": total.feasibility,
                "unsat": total.unsat,
                "sat": total.sat,
                "unknown": total.unknown,
                "time_s": round(total.solver_s, 2),
                "normaliser_steps": total.lemmas,
                "normaliser_steps_confirmed": total.lemmas_certified,
            },
            "largest_polynomial_terms": total.max_terms,
            "assumed_signs": total.assumptions,
            "functions_encoded": functions,
            "cases": per_job,
            "bounds": {sc.name: {"params": [repr(p) for p in sc.params(tier)], "what": sc.bounds} for sc in scs},
            "undecided": undecided,
            "replays": n_replay,
        },
        "assumptions": STUBS,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{prop} {tier}: {len(jobs)} cases, {total.paths} paths, {total.discharged}/{total.obligations} "
        f"obligations discharged, {total.queries + total.feasibility} queries "
        f"({total.solver_s:.1f} s solver), {total.validated} paths validated, "
        f"{len(functions)} functions, {wall:.1f} s"
    )
    if args.v:
        for j in sorted(per_job, key=lambda j: -j.get("wall_s", 1e9)):
            print("  ", j)
    for u in undecided:
        print(f"UNDECIDED property={prop} {u}")
    for title, c, path, line in violations:
        print(f"  {title} at {c['label']} ({c['kind']}): {c['detail'][:600]}")
        print(f"  {line}")
        print(f"VIOLATION property={prop} replay={path}")
    if violations:
        return 1
    if total.discharged == 0 and not findings:
        print("nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
