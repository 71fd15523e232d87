"""Runs one property's check: symbolic tasks in parallel, replay of counterexamples on the
real code, known findings, evidence."""
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

from . import env, known

NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Pool:
    def __init__(self, prop, mode, n):
        self.prop, self.mode, self.n = prop, mode, n
        self.q = queue.Queue()
        self.res = queue.Queue()
        self.threads = []
        self.stop = False
        self.procs = set()
        for _ in range(n):
            t = threading.Thread(target=self._serve, daemon=True)
            t.start()
            self.threads.append(t)

    def _spawn(self):
        e = dict(os.environ)
        e["PYTHONPATH"] = env.VERIF
        p = subprocess.Popen(
            [env.PY, "-m", "vf.worker", self.prop, self.mode], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE if not os.environ.get("VERIF_DEBUG") else None,
            text=True, env=e, cwd=env.VERIF, bufsize=1,
        )
        self.procs.add(p)
        if p.stderr is not None:
            p.tail = []

            def drain():
                for ln in p.stderr:
                    p.tail.append(ln)
                    del p.tail[:-30]

            threading.Thread(target=drain, daemon=True).start()
        ln = p.stdout.readline()
        try:
            ready = json.loads(ln) if ln else {"ready": False, "error": "worker did not start"}
        except ValueError:
            ready = {"ready": False, "error": "worker did not start"}
        if not ready["ready"] and ready.get("error") == "worker did not start":
            ready["error"] += ": " + "".join(getattr(p, "tail", []))[-400:]
        return p, ready

    def _serve(self):
        p = None
        while not self.stop:
            try:
                msg = self.q.get(timeout=0.2)
            except queue.Empty:
                continue
            try:
                if p is None or msg.get("fresh"):
                    if p is not None:
                        self._kill(p)
                    p, ready = self._spawn()
                    if not ready["ready"]:
                        self.res.put({"id": msg["id"], "status": "import", "detail": ready.get("error"),
                                      "violated": None, "message": ready.get("error")})
                        self._kill(p)
                        p = None
                        continue
                timer = threading.Timer(msg.get("timeout", 240), p.kill)
                timer.start()
                p.stdin.write(json.dumps(msg) + "\n")
                p.stdin.flush()
                ln = p.stdout.readline()
                timer.cancel()
                if not ln:
                    rc = p.wait()
                    self.res.put({"id": msg["id"], "status": "died", "detail": f"worker ended with {rc}",
                                  "violated": None, "rc": rc, "message": f"process ended with status {rc}"})
                    self._kill(p)
                    p = None
                    continue
                r = json.loads(ln)
                self.res.put(r)
                if r.get("retire"):
                    self._kill(p)
                    p = None
            except (BrokenPipeError, OSError, ValueError) as e:
                self.res.put({"id": msg["id"], "status": "died", "detail": str(e), "violated": None,
                              "message": str(e)})
                if p is not None:
                    self._kill(p)
                p = None
        if p is not None:
            self._kill(p)

    def _kill(self, p):
        try:
            p.kill()
            p.wait(5)
        except Exception:
            pass
        self.procs.discard(p)

    def close(self):
        self.stop = True
        for p in list(self.procs):
            self._kill(p)


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    limit = float(os.environ.get("VERIF_LIMIT", "520" if tier == "quick" else "6000"))
    P = importlib.import_module(f"vf.props.{prop.lower()}")
    tasks = P.tasks(tier, seed)
    # long tasks first
    order = sorted(range(len(tasks)), key=lambda i: -P.cost(tasks[i]) if hasattr(P, "cost") else 0)
    pool = Pool(prop, "sym", min(NPROC, max(1, len(tasks))))
    for i in order:
        pool.q.put({"id": i, "task": tasks[i]})
    results = {}
    confirmed, unconfirmed, known_hits = [], [], {}
    suspects = []  # results that need a look at the real code
    real = None

    def judge(r):
        k = known.match(prop, r)
        if k:
            known_hits.setdefault(k["id"], (k, 0))
            known_hits[k["id"]] = (k, known_hits[k["id"]][1] + 1)
            r["status"] = "known"
            return
        suspects.append(r)

    n_cex = 0
    while len(results) < len(tasks):
        left = limit - (time.time() - t0)
        if left <= 0:
            break
        try:
            r = pool.res.get(timeout=min(left, 5))
        except queue.Empty:
            continue
        r["task"] = tasks[r["id"]]
        results[r["id"]] = r
        if r.get("status") not in ("holds", "known"):
            judge(r)
            if r.get("status") in ("cex", "error"):
                n_cex += 1
        if n_cex >= 40 and time.time() - t0 > 45:
            break  # plenty of counterexamples to replay
    pool.close()
    sym_wall = time.time() - t0

    # ---- recorded findings that the symbolic contract hides: run their input for real
    ds = known.demos(prop)
    if ds:
        dp = Pool(prop, "real", 1)
        for i, k in enumerate(ds):
            dp.q.put({"id": i, "task": k["demo"][prop], "fresh": True, "timeout": 120})
        for _ in ds:
            try:
                a = dp.res.get(timeout=150)
            except queue.Empty:
                break
            if a.get("violated"):
                known_hits[ds[a["id"]]["id"]] = (ds[a["id"]], 1)
        dp.close()

    # ---- replay on the real code, in fresh processes
    rank = {"cex": 0, "error": 1, "died": 2, "notenc": 3, "unknown": 4, "internal": 5, "import": 6}
    suspects.sort(key=lambda r: (rank.get(r.get("status"), 9), P.cost(r["task"]) if hasattr(P, "cost") else 0))
    replays = 0
    if suspects:
        pick = spread(suspects, 32 if tier == "quick" else 64)
        real = Pool(prop, "real", min(NPROC, len(pick)))
        for k, r in enumerate(pick):
            probes = [] if r.get("x") is not None or r.get("status") == "error" else ["tiny", "huge", "sparse", "zero"]
            real.q.put({"id": k, "task": r["task"], "x": r.get("x"), "fresh": True, "timeout": 200, "probes": probes})
        got, second = 0, []
        want = len(pick)
        t1 = time.time()
        while got < want and len(confirmed) < 3:
            if time.time() - t0 > limit + 200:
                break
            try:
                a = real.res.get(timeout=2)
            except queue.Empty:
                continue
            got += 1
            replays += 1
            k = a["id"]
            r = pick[k % len(pick)]
            if a.get("violated") or (a.get("violated") is None and a.get("status") == "died" and a.get("rc") not in (-9, None)):
                rr = dict(r, error=a.get("error"), where=a.get("where"), real_message=a.get("message"))
                kk = known.match(prop, rr)
                if not kk and r.get("status") not in ("cex", "error"):
                    kk = known.match_probe(prop, rr)
                if kk:
                    known_hits.setdefault(kk["id"], (kk, 1))
                    r["status"] = "known"
                else:
                    confirmed.append((r, a))
            elif k < len(pick) and r.get("status") == "cex" and r.get("history"):
                # the violation may need what the process did before
                real.q.put({"id": k + len(pick), "task": r["task"], "x": r.get("x"), "fresh": True,
                            "history": r["history"], "timeout": 300})
                want += 1
            else:
                unconfirmed.append((r, a))
        real.close()

    code = 0
    os.makedirs(os.path.join(env.VERIF, "evidence", "replay"), exist_ok=True)
    for kid, (k, n) in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']} ({n} configuration(s))")
    for i, (r, a) in enumerate(confirmed[:3]):
        path = os.path.join(env.VERIF, "evidence", "replay", f"{prop}_{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "task": r["task"], "x": r.get("x"), "history": r.get("history") or [],
                       "symbolic": {k: r.get(k) for k in ("status", "detail")}, "observed": a.get("message")}, f, indent=1)
        print(f"  task {json.dumps(r['task'])}")
        print(f"  solver/encoding: {r.get('status')} {r.get('detail', '')}")
        print(f"  real code: {a.get('message')}")
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    if os.environ.get("VERIF_SLOW"):
        for r in sorted(results.values(), key=lambda r: -(r.get("wall") or 0))[:12]:
            print(f"  slow {r.get('wall', 0):.1f}s {json.dumps(r['task'])[:220]}")
    st = {}
    for r in results.values():
        st[r["status"]] = st.get(r["status"], 0) + 1
    skipped = len(tasks) - len(results)
    for r, a in unconfirmed[:8]:
        print(f"  inconclusive: {json.dumps(r['task'])[:160]} {r['status']} {str(r.get('detail'))[:200]} ; real: {str(a.get('message'))[:120]}")
    agg = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, atoms=0, vars=0)
    for r in results.values():
        for k, v in (r.get("stats") or {}).items():
            agg[k] = max(agg[k], v) if k == "vars" else agg[k] + v
    holds = [r for r in results.values() if r["status"] == "holds"]
    counts = {}
    for r in results.values():
        for k, v in (r.get("counts") or {}).items():
            counts[k] = counts.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": P.EXPLANATION,
            "functions_encoded": P.FUNCTIONS,
            "bounds": P.BOUNDS,
            "evaluations": len(results),
            "distinct_nontrivial": sum(1 for r in holds if r.get("nontrivial")),
            "rule": "one task = one symbolic execution of the named functions with all signal/parameter "
                    "values of the task symbolic; non-trivial = its reachability twin came back satisfiable",
            "task_status": st,
            "tasks_not_run_within_time": skipped,
            "solver": "z3 " + _z3v(),
            "queries_discharged": agg["queries"], "queries_unsat": agg["unsat"], "queries_sat": agg["sat"],
            "queries_unknown": agg["unknown"], "assertion_atoms": agg["atoms"],
            "max_variables_in_a_query": agg["vars"], "solver_s": round(agg["solver_s"], 2),
            "symbolic_wall_s": round(sym_wall, 2),
            "replays_on_real_code": replays,
            "inconclusive": [
                {"task": r["task"], "status": r["status"], "detail": str(r.get("detail"))[:300]}
                for r, _ in unconfirmed[:20]
            ],
            "known_findings": {k: n for k, (_, n) in known_hits.items()},
            "samples": [r["task"] for r in list(results.values())[:4]],
            **counts,
        },
        "assumptions": P.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(results)}/{len(tasks)} tasks {st}, {agg['queries']} queries "
          f"({agg['solver_s']:.1f}s solver), {replays} replays, {time.time()-t0:.1f}s -> "
          + ("VIOLATED" if code else "held on everything explored"))
    sys.stdout.flush()
    return code


def spread(xs, n):
    """Keep n of xs: all solver counterexamples first, then evenly spread over the rest."""
    if len(xs) <= n:
        return list(xs)
    head = [x for x in xs if x.get("status") == "cex"][: n // 2]
    ids = {id(x) for x in head}
    rest = [x for x in xs if id(x) not in ids]
    m = n - len(head)
    step = max(1, len(rest) / m)
    return head + [rest[int(i * step)] for i in range(min(m, len(rest)))]


def _z3v():
    try:
        return env.import_z3().get_version_string()
    except Exception:
        return "?"
